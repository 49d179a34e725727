"""C09: header and position of the image."""
from .common import *
from . import data, isa, exprs
from engine.ai import bits
EXPLANATION = ("Abstract interpretation of every emitting statement kind (instruction, .byte, .word, .str, .fill; LLVM IR of /repo's current sources) as first "
               "statement of the writing pass, behind no origin, `.org v` and `*=v`, in both output formats, and as a later statement from an arbitrary position; with all "
               "values, the location counter, the origin and the image length symbolic. Checked on every path: the written header, the invariant "
               "location counter == origin + written bytes - bytes not counted, and that a statement whose position disagrees writes nothing and is reported.")
ASSUMPTIONS = ["data values fit (rejected values are property C07)"]
PROBES = ["E(ORG)", "E(PCASSIGN)", "E(c64)", "E(bin)"]
KINDS = ["nop", "byte", "word2", "str", "fill"]

class Image:
    def __init__(self, ctx):
        ctx.load(sorted(set(isa.probes() + data.PROBES + exprs.PROBES + PROBES)))
        self.ctx = ctx
        self.D = data.Data(ctx); self.S = self.D.S; self.I = self.S.I
    def node(self, st, kind):
        """-> state, node, bytes expected (terms), values that have to fit"""
        S, P, D = self.S, self.ctx.P, self.D
        D.k = 0; D.later = []
        if kind == "nop":
            st, n = S.one("opcode_node", [P("_nop"), P(isa.MODES["imp"]), 0], st)
            return st, n, [0xEA]
        if kind == "str":
            st, s, d = D.string(st, 3)
            st, l = S.one("operator_node", [P("EXPRLIST"), 1, s], st)
            st, n = S.one("data_node", [P("data_string"), l], st)
            return st, n, d[1]
        hi = {"byte": 255, "word2": 65535, "fill": 255}[kind]
        v = fresh("v", 32, 0, hi)
        st, c = S.one("constant_node", [v, 0], st)
        if kind == "fill":
            st, k = S.one("constant_node", [3, 0], st)
            st, n = S.one("operator_node", [P("FILL"), 2, c, k], st)
            return st, n, [v, v, v]
        if kind == "byte":
            st, l = S.one("operator_node", [P("EXPRLIST"), 1, c], st)
            st, n = S.one("data_node", [P("data_byte"), l], st)
            return st, n, [v]
        w = fresh("w", 32, 0, hi)
        st, c2 = S.one("constant_node", [w, 0], st)
        st, l = S.one("operator_node", [P("EXPRLIST"), 1, c], st)
        st, l = S.one("operator_node", [P("EXPRLIST"), 2, l, c2], st)
        st, n = S.one("data_node", [P("data_word"), l], st)
        return st, n, [(v, 0), (v, 1), (w, 0), (w, 1)]
    def origin(self, st, how, v):
        S, P = self.S, self.ctx.P
        st, c = S.one("constant_node", [v, 0], st)
        return S.one("operator_node", [P({"org": "ORG", "star": "PCASSIGN"}[how]), 1, c], st)
    def want(self, st, l): return [bits(st, x[0], 8 * x[1], 8) if isinstance(x, tuple) else x for x in l]
    def gap(self, st):
        S = self.S
        g = lambda n: S.get(st, n)
        return sub(g("program_counter"), sub(add(g("origin"), g("total_bytes_written")), g("byte_delta")))
    def zero(self, st, d):
        return d == 0 or st.rset(d) == ((0, 0),)
    def run(self):
        ctx, S, D, I, P = self.ctx, self.S, self.D, self.I, self.ctx.P
        E = lambda st: S.get(st, "error_count")
        def begin(fmt):
            st = S.start()
            S.set(st, "output_file_format", P(fmt)); S.set(st, "output_file", S.out); S.set(st, "final_pass", 1)
            return st
        fns = self.ctx.fn("generate_output"); where0 = "%s:%s (generate_output)" % (fns.file, fns.line)
        for fmt in ("c64", "bin"):
            for how in ("none", "org", "star"):
                for k1 in KINDS:
                    key = "%s/%s/%s" % (fmt, {"none": "no origin", "org": ".org", "star": "*="}[how], k1)
                    st = begin(fmt)
                    st, n1, w1 = self.node(st, k1)
                    v = None
                    sts = [st]
                    if how != "none":
                        v = fresh("start", 32)
                        st, o = self.origin(st, how, v)
                        e0 = E(st); st.ev = None
                        sts = []
                        for s, _ in S.call("expand_node", [o], st):
                            if E(s) != e0:
                                ctx.ob(key + "/accepted", not inter(s.rset(v), ((0, 65535),)), "an origin of the address space is rejected: %s" % (s.rset(v),), "expand.cc")
                                continue
                            sts.append(s)
                            ctx.ob(key + "/origin", S.get(s, "program_counter") == v or self.zero(s, sub(S.get(s, "program_counter"), v)), "the location counter is %r after an origin of %r" % (S.get(s, "program_counter"), v), "expand.cc")
                    n = 0
                    for st in sts:
                        start = S.get(st, "program_counter")
                        st.ev = None; e0 = E(st); I.exits.clear()
                        for f, _ in S.call("expand_node", [n1], st):
                            if E(f) != e0: ctx.ob(key, False, "a fitting statement is rejected at the start of the image", where0); continue
                            n += 1
                            W = next((e[4] for e in f.events() if e[0] == 'write'), where0)
                            head = [bits(f, start, 0, 8), bits(f, start, 8, 8)] if fmt == "c64" else []
                            bad = inter(f.rset(start), compl(((0, 65535),)))
                            ctx.ob(key + "/address", not bad, "the image starts at %s" % (bad,), W)
                            m = D.match(f, D.flat(f), head + self.want(f, w1))
                            ctx.ob(key, m is None, "first statement: %s (%sheader expected)" % (m, "" if head else "no "), W)
                            ctx.ob(key + "/position", self.zero(f, self.gap(f)), "location counter and image position differ by %r after the first statement" % (self.gap(f),), W)
                            k2 = KINDS[(KINDS.index(k1) + 1) % len(KINDS)]
                            f, n2, w2 = self.node(f, k2)
                            f.ev = None; e1 = E(f)
                            for g, _ in S.call("expand_node", [n2], f):
                                if E(g) != e1: ctx.ob(key + "/second", False, "a fitting statement is rejected as second statement", where0); continue
                                m = D.match(g, D.flat(g), self.want(g, w2))
                                ctx.ob(key + "/second", m is None, "second statement (%s): %s" % (k2, m), W)
                        for s, c, w, stk in I.exits: ctx.ob(key, False, "the assembler is left by exit", w)
                        I.exits.clear()
                    ctx.ob(key, n > 0, "never accepted", where0)
        # anywhere in the image
        for fmt in ("c64", "bin"):
            for how in ("org", "star"):
                key = "%s/%s in the image" % (fmt, how)
                st = begin(fmt); st, n1, w1 = self.node(st, "byte")
                v = fresh("v", 32)
                st, o = self.origin(st, how, v)
                D.position(st, 1); S.set(st, "org_origin_specified", 0)
                e0 = E(st); n = 0
                for s, _ in S.call("expand_node", [o], st):
                    if E(s) != e0: continue
                    n += 1
                    ctx.ob(key, not D.flat(s), "bytes are written", "expand.cc")
                    ctx.ob(key + "/position", self.zero(s, self.gap(s)), "location counter and image position differ by %r" % (self.gap(s),), "expand.cc")
                    s.ev = None
                    for f, _ in S.call("expand_node", [n1], s):
                        m = D.match(f, D.flat(f), self.want(f, w1))
                        ctx.ob(key + "/next", m is None and E(f) == e0, "the next statement: %s" % (m or "is rejected"), where0)
                for s, c, w, stk in I.exits: ctx.ob(key, False, "the assembler is left by exit", w)
                I.exits.clear()
                ctx.ob(key, n > 0, "never accepted", "expand.cc")
            for k in KINDS:
                key = "%s/%s away from the image position" % (fmt, k)
                for early in (0, 1):
                    st = begin(fmt); st, n1, w1 = self.node(st, k)
                    d = fresh("gap", 32, -65535, 65535)
                    pos = D.position(st, 1)
                    if early:
                        org = fresh("org", 32, 0, 65535)
                        S.set(st, "total_bytes_written", 0); S.set(st, "byte_delta", 0); S.set(st, "origin", org)
                        S.set(st, "program_counter", add(org, d))
                    else: S.set(st, "program_counter", add(pos[0], d))
                    st.assume(d, compl(((0, 0),)))
                    e0 = E(st); I.exits.clear(); seen = 0
                    outs = [(f, E(f) != e0) for f, _ in S.call("expand_node", [n1], st)]
                    outs += [(s, c != 0) for s, c, w, stk in I.exits]
                    I.exits.clear()
                    for f, rep in outs:
                        seen += 1
                        b = D.flat(f)
                        hl = 2 if early and fmt == "c64" else 0
                        W = next((e[4] for e in f.events() if e[0] == 'write'), where0)
                        ctx.ob(key, len(b) <= hl, "a statement %s away from the image position is emitted" % (f.rset(d),), W)
                        ctx.ob(key + "/reported", rep, "a statement %s away from the image position is not reported" % (f.rset(d),), W)
                    ctx.ob(key, seen > 0, "no outcome", where0)

def run(ctx):
    ctx.rule = "c64: first two bytes == start address low, high, once; bin: none; invariant pc == origin + written - not counted; a disagreeing statement is reported and not written"
    Image(ctx).run()
