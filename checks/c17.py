"""C17: expanding a statement restores the enclosing naming and nesting state."""
from .common import *
from .common import _ai
from . import scen, loops, exprs
from .scen import I8, I32, I64, PT
from engine import libc
EXPLANATION = ("Every kind of node is built by the real constructors and followed through the real expander by the abstract interpreter, from states inside and outside sections, labels, register loops "
               "and macro calls (nesting counters symbolic); statements inside a construct are stand-ins that may change everything but the tracked state (they are covered by their own runs). "
               "On every path that returns, also after an error, the nesting counters, the label scope, the section, the pending macro calls and the macro parameters must be as before.")
ASSUMPTIONS = ["a statement inside a construct restores the tracked state itself (induction over the nesting; every kind of statement has its own run)", "paths that stop the assembler are not asked to restore anything"]
BIN = ["+", "-", "*", "/", "BIT_OR", "BIT_AND", "^", "<", ">", "EQ", "NE", "GE", "LE", "OR", "AND", "SHIFT_LEFT", "SHIFT_RIGHT"]
UN = ["UMINUS", "~", "LOBYTE", "HIBYTE", "NOT"]
OTHER = ["MACRO", "SECTION", "ENDSECTION", "PCASSIGN", "ORG", "EXPRLIST", "PRINT", "PRINTALL", "DS", "END", "EQU", "INC", "LOAD", "FILL", "data_byte", "data_word", "data_string"]
PROBES = ["E(%s)" % t for t in sorted(set([x for x in BIN + UN if len(x) > 1] + OTHER))] + ["E(a)", "E(_jmp)", "E(_bne)", "O(instance_data,index)", "O(stack,instance)"]
loops_PROBES = loops.PROBES
COUNTERS = ("expand_level", "for_x_count", "for_y_count")

class Track:
    def __init__(self, ctx, L):
        self.ctx, self.L, self.S, self.I = ctx, L, L.S, L.I
        self.counters = [c for c in COUNTERS if ctx.mod.gv(c) is not None]
        ctx.need(len(self.counters), "nesting counters")
    def depth(self, st):
        if self.ctx.mod.gv("macro_params_stack") is None: return None
        p = self.S.get(st, "macro_params_stack", PT)
        if isinstance(p, Ptr) and p.o is None: return -1
        q = self.S.rd(st, p, "stack", "instance", PT)
        return self.S.rd(st, q, "instance_data", "index", I64)
    def text(self, st, name):
        p = self.S.get(st, name, PT)
        if isinstance(p, Ptr) and p.o is None: return None
        if not isinstance(p, Ptr): return p
        s = libc.cstr(self.I, st, p)
        return ('text', s) if s is not None else ('at', p.o, p.off)
    def params(self, st, n):
        out = []
        for k in range(1, n + 1):
            r = self.I.call(self.ctx.fn("look_up_macro_param"), [k], st)
            if len(r) != 1: raise Broken("look_up_macro_param has %d outcomes" % len(r))
            y = r[0][1]
            out.append(self.S.rd(r[0][0], y, "symbol_table", "value") if isinstance(y, Ptr) and y.o is not None else None)
        return out
    def snap(self, st, n=0):
        d = {c: self.S.get(st, c) for c in self.counters}
        d["current_scope"] = self.text(st, "current_scope"); d["last_label"] = self.text(st, "last_label")
        d["calls in progress"] = self.depth(st)
        for k, v in enumerate(self.params(st, n)): d["\\%d" % (k + 1)] = v
        return d
    def same(self, st, a, b):
        if a == b: return True
        return isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and same_bits(st, a, b, 32)

def run(ctx):
    ctx.rule = "for every node kind, surrounding state and returning path: nesting counters, section, label scope, pending calls and parameters after == before"
    loops.PROBES = sorted(set(loops_PROBES + PROBES + exprs.PROBES))
    L = loops.Loops(ctx)
    S, I, P = L.S, L.I, ctx.P
    libc.install_numbers(I)
    T = Track(ctx, L)
    I.unroll_decided = 5000; I.exact_sort = True; I.maxrec = 30
    runs = [0, 0]
    def around():
        """states around the statement"""
        for scope in (None, "s", "s.t"):
            for label in (None, "start"):
                for pos in ("top", "body"):
                    st = L.begin()
                    S.set(st, "current_scope", S.text(st, scope) if scope else NULL)
                    S.set(st, "last_label", S.text(st, label) if label else NULL)
                    S.set(st, "current_file_name", S.text(st, "a.asm"))
                    S.set(st, "yylineno", 10)
                    if pos == "body":
                        for c in T.counters: S.set(st, c, fresh(c, 32, 0 if c != "expand_level" else 1, 1 << 10))
                    yield "%s%s%s" % (scope or "no section", ", label" if label else "", ", inside" if pos == "body" else ""), st
    L.limit = 1
    def check(key, st, node, params=0, fn="expand_node", args=None, but=()):
        before = T.snap(st, params)
        e0 = S.get(st, "error_count")
        L.cut = []; I.exits.clear()
        res = S.call(fn, [node] if args is None else args, st)
        runs[0] += 1
        if not res and not I.exits and not L.cut: raise Broken("no outcome of " + key)
        I.exits.clear()
        out = []
        for s, v in list(res):
            runs[1] += 1
            after = T.snap(s, params)
            err = S.get(s, "error_count") != e0
            for k in before:
                if k in but: continue
                ctx.ob(key + "/" + k, T.same(s, before[k], after[k]), "%s was %r and is %r%s" % (k, before[k], after[k], " after a reported error" if err else ""), "expand.cc")
            out.append(s)
        return out
    def con(st): return L.const(st, fresh("v", 32))
    def name(st, n, kind="id_node"): return S.one(kind, [S.text(st, n)], st)
    # ---------------------------------------------------------------- plain nodes and expressions
    for where, st0 in around():
        K = lambda s: s       # keys aggregate over the surrounding states
        st = st0.fork(); st, n = con(st); check("constant", st, n)
        st = st0.fork(); st, n = L.const(st, 0, 1); check("location counter", st, n)
        for nm in ("n", "@n", "-", "+", "--", "s.n", ".n", "s.t.n", "\\1"):
            st = st0.fork(); st, n = name(st, nm); check("name " + nm, st, n)
            if nm != "\\1":
                st = st0.fork(); st, y = S.one("add_symbol", [S.text(st, nm)], st); S.wr(st, y, "symbol_table", "is_initialized", 1, I8)
                st, n = name(st, nm); check("known name " + nm, st, n)
        for nm in ("n", "n:", "@n", "@s.n", "-", "+", "s.n", "\\1", "A", ".n"):
            st = st0.fork(); check("symbol " + nm, st, None, fn="add_symbol", args=[S.text(st, nm)])
            st = st0.fork(); check("search " + nm, st, None, fn="look_up_symbol", args=[S.text(st, nm)])
        for nm in ("n", "@n", "-", "+", "s.n"):
            for kind in ("const", "label", "equ"):
                st = st0.fork()
                if kind == "label": lab = S.get(st, "last_label"); st, l = name(st, nm, "label_node"); S.set(st, "last_label", lab)
                else: st, l = name(st, nm)
                st, c = con(st) if kind != "label" else L.const(st, 0, 1)
                st, n = L.op(st, "EQU" if kind == "equ" else "=", l, c); check("assignment (%s) %s" % (kind, nm), st, n)
    plain = [x for x in around() if x[0] in ("no section, inside", "s, label, inside", "s.t, label")]
    for where, st0 in plain:
        for o in BIN:
            st = st0.fork(); st, a = con(st); st, b = con(st); st, n = L.op(st, o, a, b); check("operator " + o, st, n)
        for o in UN:
            st = st0.fork(); st, a = con(st); st, n = L.op(st, o, a); check("operator " + o, st, n)
        # ------------------------------------------------------------ directives
        for o in ("ORG", "PCASSIGN", "DS", "PRINT", "PRINTALL"):
            st = st0.fork(); st, a = con(st); args = [a]
            if o.startswith("PRINT"): st, a = L.op(st, "EXPRLIST", a); args = [a]
            elif o == "PCASSIGN": st, q = L.const(st, 0, 1); args = [q, a]
            st, n = L.op(st, o, *args); check(o, st, n)
        st = st0.fork(); st, n = L.op(st, "END"); check("END", st, n)
        st = st0.fork(); S.set(st, "end_expansion", 1); st, n = con(st); check("statement after END", st, n)
        for fp in (0, 1):
            st = st0.fork(); S.set(st, "final_pass", fp); st, a = L.const(st, fresh("v", 32, 0, 255)); st, b = L.const(st, 3); st, n = L.op(st, "FILL", a, b); check("FILL", st, n)
            for dt in ("data_byte", "data_word", "data_string"):
                st = st0.fork(); S.set(st, "final_pass", fp)
                for c in ("program_counter_assigned", "origin_specified"):
                    if ctx.mod.gv(c) is not None: S.set(st, c, 1)
                S.set(st, "output_file", S.out)
                st, a = con(st); st, e = L.op(st, "EXPRLIST", a); st, b = con(st); st, e = L.op(st, "EXPRLIST", e, b)
                st, n = S.one("data_node", [P(dt), e], st); check(dt, st, n)
        # variables
        for withval in (0, 1):
            st = st0.fork(); st, a = name(st, "va"); st, e = L.op(st, "EXPRLIST", a)
            if withval: st, b = con(st); st, e = L.op(st, "EXPRLIST", e, b)
            st, n = L.op(st, "VAR", e); check("VAR", st, n)
        st = st0.fork(); st, b = con(st); st, e = L.op(st, "EXPRLIST", b); st, n = L.op(st, "VAR", e); check("VAR without a name", st, n)
        # ------------------------------------------------------------ blocks
        for o in ("WHILE", "REPEAT", "DO"):
            st = st0.fork(); st, c = L.cond(st); st, b = L.body(st); st, n = L.op(st, o, *((c, b) if o == "WHILE" else (b, c)))
            L.pcmax = 0x1FFFF; check(o, st, n); L.pcmax = 0xFFFF
        for k in (2, 3):
            st = st0.fork(); st, c = L.cond(st); st, b = L.body(st); st, b2 = L.body(st); st, n = L.op(st, "IF", *([c, b, b2][:k])); check("IF", st, n)
        st = st0.fork(); st, b = L.body(st); st, b2 = L.body(st); st, n = L.op(st, "STATEMENT", b, b2); check("STATEMENT", st, n)
        st = st0.fork(); st, n = L.op(st, "STATEMENT"); check("STATEMENT", st, n)
        for steps in (0, 1):
            for var in ("fv", "other"):
                st = st0.fork(); st, y = L.var(st, "fv", 1); st, y2 = L.var(st, "other", 1)
                st, v = name(st, "fv"); st, a = con(st); st, asg = L.op(st, "=", v, a); st, e = con(st); st, b = L.body(st); st, nx = name(st, var)
                ops = [asg, e, b, nx]
                if steps: st, c = con(st); ops.append(c)
                st, n = L.op(st, "FOR", *ops); L.pcmax = 0x1FFFF; check("FOR", st, n); L.pcmax = 0xFFFF
        for o in ("REGX", "REGY"):
            for inc in (1, -1):
                st = st0.fork(); st, a = con(st); st, b = con(st); st, body = L.body(st); st, i = L.const(st, inc)
                st, n = L.op(st, o, a, b, body, i); check(o, st, n)
                for inner in ("REGX", "REGY"):
                    st = st0.fork(); st, a = L.const(st, 1); st, b = L.const(st, 2); st, body = L.body(st); st, i = L.const(st, 1)
                    st, m = L.op(st, inner, a, b, body, i)
                    st, a2 = con(st); st, b2 = con(st); st, n = L.op(st, o, a2, b2, m, L.const(st, inc)[1] if False else i); check("%s in %s" % (inner, o), st, n)
        # ------------------------------------------------------------ unknown nodes
        st = st0.fork(); st, n = S.one("operator_node", [29999, 0], st); check("unknown operator", st, n)
        st = st0.fork(); check("no node", st, NULL)
    # -------------------------------------------------------------------- sections
    for where, st0 in around():
        for nm in ("b", "B9_", "b.c", "b.c.d", "q" * 200):
            st = st0.fork(); before = T.snap(st)
            st, a = name(st, nm); st, n = L.op(st, "SECTION", a); st, m = L.op(st, "ENDSECTION")
            for s in check("SECTION", st, n, but=("current_scope",)):
                inner = T.text(s, "current_scope")
                outer = before["current_scope"]
                want = ('text', (outer[1] + "." if outer else "") + nm)
                ctx.ob("SECTION/name", inner == want, "inside the section the scope is %r, not %r" % (inner, want), "expand.cc")
                for c in T.counters: before[c] = S.get(s, c)
                # a statement and an inner section in between
                for inner_s in (None, "i", "i.j"):
                    s1 = s.fork()
                    if inner_s:
                        s1, a1 = name(s1, inner_s); s1, n1 = L.op(s1, "SECTION", a1); s1, n2 = L.op(s1, "ENDSECTION")
                        for n_ in (n1, n2): s1 = S.one("expand_node", [n_], s1)[0]
                        ctx.ob("SECTION in SECTION" + (" (dotted name)" if "." in inner_s or "." in nm else ""), T.text(s1, "current_scope") == inner, "after the inner section the scope is %r, not %r" % (T.text(s1, "current_scope"), inner), "expand.cc")
                    for s2 in check("ENDSECTION", s1, m, but=("current_scope",)):
                        now = T.text(s2, "current_scope")
                        ctx.ob("end of section" + (" with a dotted name" if "." in nm or inner_s and "." in inner_s else ""), now == outer, "after the section %s the scope is %r, not %r" % (nm[:9], now, outer), "expand.cc")
    # -------------------------------------------------------------------- macros
    macros(ctx, L, T, check)
    ctx.extra["runs"] = runs[0]; ctx.extra["returning paths"] = runs[1]
    ctx.need(runs[0] >= 300, "runs")

def define(L, st, nm, body):
    S = L.S
    st, i = S.one("macro_id_node", [S.text(st, nm)], st)
    st, n = L.op(st, "MACRO", i, body)
    st, _ = S.one("expand_node", [n], st)
    return st
def call(L, st, nm, args):
    S = L.S
    lst = NULL
    for k, a in enumerate(args):
        st, lst = L.op(st, "EXPRLIST", a) if k == 0 else L.op(st, "EXPRLIST", lst, a)
    return S.one("macro_expand_node", [S.text(st, nm), lst], st)

def macros(ctx, L, T, check):
    S, I, P = L.S, L.I, ctx.P
    L.limit = 4
    L.pcmax = 0xFFFF
    for scope, label in ((None, None), ("s", "start")):
        if 1:
            st0 = L.begin()
            S.set(st0, "current_scope", S.text(st0, scope) if scope else NULL); S.set(st0, "last_label", S.text(st0, label) if label else NULL)
            S.set(st0, "current_file_name", S.text(st0, "a.asm"))
            for c in T.counters: S.set(st0, c, fresh(c, 32, 0 if c != "expand_level" else 1, 1 << 10))
            st = st0.fork(); st, n = call(L, st, "nomacro", []); check("call of an unknown macro", st, n)
            st = st0.fork(); st, b = L.body(st); st, i = S.one("macro_id_node", [S.text(st, "mm")], st); st, n = L.op(st, "MACRO", i, b); check("macro definition", st, n)
            for have in range(0, 4):                  # parameters known from earlier calls
                st1 = st0.fork(); st1, b = L.body(st1); st1 = define(L, st1, "inner", b)
                # an earlier call of the same pass leaves its parameters
                args = []
                for k in range(have): st1, a = L.const(st1, fresh("old", 32, 0, 0xFFF)); args.append(a)
                st1, n = call(L, st1, "inner", args)
                r = S.call("expand_node", [n], st1); I.exits.clear()
                for st1, _ in r:
                    for nargs in range(0, 4):
                        st = st1.fork(); args = []
                        for k in range(nargs): st, a = L.const(st, fresh("arg", 32, 0x1000, 0x1FFF)); args.append(a)
                        st, n = call(L, st, "inner", args); check("macro call", st, n, params=have)
                    # an argument that is rejected
                    st = st1.fork(); st, a = S.one("string_node", [S.text(st, '"x"')], st); st, n = call(L, st, "inner", [a]); check("macro call with a string", st, n, params=have)
                    st = st1.fork(); st, a = L.const(st, fresh("arg", 32)); st, n = call(L, st, "inner", [a]); check("macro call with any value", st, n, params=have)
                    # nested
                    for nargs in (0, 1, 2, 3):
                        st = st1.fork(); args = []
                        st, b = L.body(st); st, b2 = L.body(st)
                        for k in range(nargs): st, a = L.const(st, fresh("arg", 32, 0x1000, 0x1FFF)); args.append(a)
                        st, c = call(L, st, "inner", args); st, blk = L.op(st, "STATEMENT", b, c); st, blk = L.op(st, "STATEMENT", blk, b2)
                        st = define(L, st, "outer", blk)
                        args = []
                        for k in range(2): st, a = L.const(st, fresh("oarg", 32, 0x3000, 0x3FFF)); args.append(a)
                        st, n = call(L, st, "outer", args)
                        seen = []
                        L.hook = lambda s: T.snap(s, 2)
                        for s in check("macro call in a macro", st, n, params=have):
                            snaps = [e[4] for e in s.events() if e[0] == 'body'][-3:]
                            if ctx.ob("macro call in a macro/bodies", len(snaps) == 3, "%d statements are expanded instead of three" % len(snaps), "expand.cc"):
                                for k in snaps[0]:
                                    if k == "expand_level": continue        # deeper by the list of statements
                                    ctx.ob("macro call in a macro/rest of the outer body/" + k, T.same(s, snaps[0][k], snaps[2][k]),
                                           "%s is %r before and %r after the inner call" % (k, snaps[0][k], snaps[2][k]), "expand.cc")
                        L.hook = None
            # the macro's name as a node
            st = st0.fork(); st, i = S.one("macro_id_node", [S.text(st, "mi")], st); check("macro name, unknown", st, i)
            st = st0.fork(); st, b = L.body(st); st = define(L, st, "mi", b); st, i = S.one("macro_id_node", [S.text(st, "mi")], st); check("macro name", st, i)
    L.hook = None
