"""Value assignments to names (constants, labels, anonymous labels) through the real node
constructors and the real expander, observed by evaluating a reference afterwards."""
from .common import *
from .common import _ai
from . import scen
PROBES = ["E(EQU)", "O(symbol_table,is_initialized)", "O(dict,element_size)", "OO(parse_node,id.i,id_i)"]

class Labels:
    def __init__(self, ctx):
        self.ctx = ctx
        self.S = scen.Scn(ctx, PROBES)
        self.I = self.S.I
        self.I.unroll_decided = 64
        self.I.exact_sort = True; self.I.unroll = 16
    def start(self, scope=None, label="start", line=10, file="a.asm"):
        S = self.S
        st = S.start()
        S.set(st, "current_file_name", S.text(st, file))
        S.set(st, "yylineno", line)
        S.set(st, "current_scope", S.text(st, scope) if scope else NULL)
        S.set(st, "last_label", S.text(st, label) if label else NULL)
        S.set(st, "final_pass", 0)
        S.set(st, "sym_value_changed", fresh("changes", 32, 0, 1 << 20))
        return st
    def statement(self, st, kind, name, value):
        """node of `name = value` (kind const, '=') or of a label line (kind label)"""
        S, P = self.S, self.ctx.P
        ctor = "label_node" if kind == "label" else "id_node"
        st, l = S.one(ctor, [S.text(st, name)], st)
        if kind == "label": S.set(st, "program_counter", value)
        st, c = S.one("constant_node", [value, 1 if kind == "label" else 0], st)
        op = P("EQU") if kind == "const" else ord('=')
        st, n = S.one("operator_node", [op, 2, l, c], st)
        return st, n
    def reference(self, st, name):
        """[(state, value, node)]"""
        S = self.S
        out = []
        for s, n in S.call("id_node", [S.text(st, name)], st):
            for t, v in S.call("expand_node", [n], s): out.append((t, v, n))
        return out
    def run(self, st, node):
        """[(state, error reported?, change counted?)]"""
        S = self.S
        e0 = S.get(st, "error_count"); c0 = S.get(st, "sym_value_changed")
        out = []
        for t, _ in S.call("expand_node", [node], st):
            d = sub(S.get(t, "sym_value_changed"), c0)
            lo, hi = t.rng(d)
            out.append((t, S.get(t, "error_count") != e0, lo >= 1, hi >= 1))
        return out

    def opaque_names(self):
        """names that are not constant texts get an entry of their own: dict_insert copies the value
        and returns the copy (C16 decides the dictionary itself)"""
        from engine.libc import cstr
        I, S = self.I, self.S
        fn = self.ctx.fn("dict_insert")
        def ins(I, st, a, inst):
            pd, key, val = a
            d = I.load(st, pd, scen.PT)
            if cstr(I, st, key) is not None or not (isinstance(d, Ptr) and d.o is not None):
                return I.exec(fn, a, st, inst)
            n = S.rd(st, d, "dict", "element_size", scen.I64)
            if not isinstance(n, int): raise Broken("element size of the symbol dictionary is not constant")
            o = I.alloc("entry", 'heap', n, 'undef'); st.nonnull = st.nonnull | {o.id}
            I.memcpy(st, Ptr(o.id, 0), val, n, inst)
            return Ptr(o.id, 0)
        I.models["dict_insert"] = ins

class Order:
    """closure of the path's facts about differences (x - y <= c); infeasible paths are recognised"""
    def __init__(self, st, lins):
        at = set()
        for x in lins: at |= {a for a, _ in x.t}
        W = {}
        def edge(a, b, c):           # a - b <= c
            if (a, b) not in W or W[a, b] > c: W[a, b] = c
        Z = -1
        for a in at:
            s = st.atom_set(a)
            if not s: s = ((1, 0),)
            edge(a, Z, s[-1][1]); edge(Z, a, -s[0][0])
        for d, s in st.cons.items():
            if len(d) == 2 and all(x in at for x, _ in d) and sorted(c for _, c in d) == [-1, 1]:
                (p,), (m,) = [x for x, c in d if c == 1], [x for x, c in d if c == -1]
                if s: edge(p, m, s[-1][1]); edge(m, p, -s[0][0])
        nodes = [Z] + sorted(at)
        for k in nodes:
            for i in nodes:
                if (i, k) not in W: continue
                for j in nodes:
                    if (k, j) in W:
                        c = W[i, k] + W[k, j]
                        if (i, j) not in W or W[i, j] > c: W[i, j] = c
        self.W = W
        self.feasible = all(W.get((n, n), 0) >= 0 for n in nodes)
    def upper(self, x, y):
        """upper bound of x - y for single atoms plus constants"""
        a, b = x.t[0][0], y.t[0][0]
        return self.W.get((a, b), INF) + x.k - y.k
