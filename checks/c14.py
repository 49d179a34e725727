"""C14: every change of a label value is counted."""
from .common import *
from . import labels
EXPLANATION = ("Abstract interpretation of value assignments (operator_node/label_node/id_node, expand_node; LLVM IR of /repo's current sources): a constant, an "
               "alias spelling, a label and an anonymous label is given an arbitrary 32-bit value v1 and, in the same or the next pass and from the same or from a "
               "new node, an arbitrary value v2; on every path without an error a reference must evaluate to the new value, and the path must either have counted a "
               "change or imply that the value is the one it was; a value outside 0..65535 must be reported and not be visible to references.")
ASSUMPTIONS = ["names stand for all names of their kind (plain, local, inside a section); two consecutive assignments stand for any sequence, because the state a second one sees is arbitrary in its value"]
ZERO = ((0, 0),)
def same(st, a, b):
    return a == b or st.rset(sub(a, b)) == ZERO
def run(ctx):
    ctx.rule = "no error: reference == new value, and (counted or new value == old value and it was known); error-free value in 0..65535"
    L = labels.Labels(ctx); S = L.S
    n = 0
    kinds = [("const", "foo"), ("assign", "foo"), ("label", "foo"), ("label", "@loop"), ("assign", "@loop")]
    for kind, name in kinds:
        for scope in (None, "sec"):
            for prior in ("first", "again", "global-first") if scope else ("first", "again"):
                for forward in (0, 1):
                    if forward and prior != "first": continue
                    key = "%s %s/%s%s/%s" % (kind, name, "in a section, " if scope else "", prior, "referenced before" if forward else "not referenced before")
                    v1 = fresh("v1", 32); v2 = fresh("v2", 32)
                    st = L.start(None if prior == "global-first" else scope)
                    starts = [(st, None)]
                    if forward:
                        starts = [(s, None) for s, v, _ in L.reference(st, name)]
                    if prior != "first":
                        nxt = []
                        for s, _ in starts:
                            s, node = L.statement(s, kind, name, v1)
                            for t, err, c, mayc in L.run(s, node):
                                if not err: nxt.append((t, node))
                        starts = nxt
                        ctx.need(len(starts), "error-free first assignment")
                    for s, node in starts:
                        s.assume(v1, ((0, 0xFFFF),))
                        if prior == "global-first": S.set(s, "current_scope", S.text(s, scope))
                        s, node2 = L.statement(s, kind, name, v2)
                        for t, err, counted, may in L.run(s, node2):
                            n += 1
                            in16 = not inter(t.rset(v2), ((-INF, -1), (0x10000, INF)))
                            for u, v, _ in L.reference(t, name):
                                if err:
                                    ctx.ob(key + "/rejected value", not inter(u.rset(v), ((-INF, -1), (0x10000, INF))),
                                           "a value in %s is rejected but references see %r" % (t.rset(v2), v))
                                    ctx.ob(key + "/rejected value", not in16, "an error is reported for a value in %s" % (t.rset(v2),))
                                    continue
                                ctx.ob(key + "/range", in16, "no error although the value may be %s" % (t.rset(v2),))
                                ctx.ob(key + "/value", same(u, v, v2), "a reference yields %r instead of the assigned value" % (v,))
                                if prior == "first":
                                    local = name[0] == '@'
                                    # local names count as known with value 0 as soon as they exist
                                    ctx.ob(key + "/counted", counted or (local and same(u, v2, 0)), "the first value is not counted as a change (value in %s)" % (t.rset(v2),))
                                else:
                                    ctx.ob(key + "/counted", counted or same(u, v2, v1), "a change from v1 to v2 (difference %s) is not counted" % (t.rset(sub(v2, v1)),))
    # anonymous labels
    for sign in "-+":
        for again in (0, 1):
            for others in (0, 1):
                key = "label %s/%s%s" % (sign, "again" if again else "first", "/among others" if others else "")
                v1 = fresh("v1", 32, 0, 0xFFFF); v2 = fresh("v2", 32, 0, 0xFFFF)
                st = L.start()
                if others:
                    for line, file, val in ((4, "a.asm", 0x1111), (20, "a.asm", 0x2222), (10, "b.asm", 0x3333)):
                        S.set(st, "yylineno", line); S.set(st, "current_file_name", S.text(st, file))
                        st, node = L.statement(st, "label", sign, val)
                        st, _ = S.one("expand_node", [node], st)
                    S.set(st, "yylineno", 10); S.set(st, "current_file_name", S.text(st, "a.asm"))
                sts = [st]
                if again:
                    st, node = L.statement(st, "label", sign, v1)
                    sts = [t for t, e, c, m in L.run(st, node) if not e]
                ctx.need(len(sts), "error-free anonymous label")
                for s in sts:
                    s, node = L.statement(s, "label", sign, v2)
                    for t, err, counted, may in L.run(s, node):
                        n += 1
                        ctx.ob(key + "/accepted", not err, "an anonymous label is rejected")
                        if err: continue
                        S.set(t, "yylineno", 11 if sign == "-" else 9)
                        for u, v, _ in L.reference(t, sign):
                            ctx.ob(key + "/value", same(u, v, v2), "a reference yields %r instead of the label's address" % (v,))
                            ctx.ob(key + "/counted", counted or (again and same(u, v2, v1)),
                                   "the first value is not counted" if not again else "a change of the address (difference %s) is not counted" % (t.rset(sub(v2, v1)),))
    ctx.need(n, "assignments")
    ctx.extra["assignment_paths"] = n
