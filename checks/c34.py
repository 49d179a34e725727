"""C34: macro expansion equals substitution of the argument values; local labels of calls differ."""
from .common import *
from .common import _ai
from . import scen, loops, c17
from .scen import I8, I32, PT
from engine import libc
from engine.dom import add, sub
EXPLANATION = ("Macros are defined and called through the real node constructors and the real expander; the statements of a body are stand-ins that evaluate expressions (`\\k`, local labels) through the real "
               "expander at that moment. With symbolic argument values every parameter must have the value its argument has in the caller, the body must be expanded once per call, a missing or rejected "
               "argument must be reported, and the naming scope of local labels must be another one in every call.")
ASSUMPTIONS = ["a macro does not call itself (the grammar does not know the macro's name inside its own body)"]

class Macros:
    def __init__(self, ctx, L):
        self.ctx, self.L, self.S, self.I = ctx, L, L.S, L.I
        I, S = self.I, self.S
        code = I.models["expand_op_code_node"]
        def probe(I, st, a, inst):
            n = a[0]
            if not (isinstance(n, Ptr) and st.tags.get(('node', n.o)) == 'probe'): return code(I, st, a, inst)
            tag, nodes = st.tags[('probe', n.o)]
            outs = [(st, ())]
            for nm, q in nodes:
                nxt = []
                for s, got in outs:
                    e0 = S.get(s, "error_count")
                    for s2, v in I.call(ctx.fn("expand_node"), [q], s):
                        nxt.append((s2, got + ((nm, v, S.get(s2, "error_count") != e0),)))
                outs = nxt
            res = []
            for s, got in outs:
                pc = S.get(s, "program_counter")
                s.event('probe', tag, got, self.label(s), pc)
                S.set(s, "program_counter", add(pc, 3))
                res.append((s, 0))
            return res
        I.models["expand_op_code_node"] = probe
    def label(self, s):
        p = self.S.get(s, "last_label", PT)
        if not isinstance(p, Ptr) or p.o is None: return None
        t = libc.cstr(self.I, s, p)
        return t if t is not None else (p.o, p.off)
    def name(self, st, nm, kind="id_node"): return self.S.one(kind, [self.S.text(st, nm)], st)
    def probe(self, st, tag, *names):
        nodes = []
        for nm in names:
            st, q = self.name(st, nm) if isinstance(nm, str) else (st, nm)
            nodes.append((nm if isinstance(nm, str) else "expr", q))
        st, n = self.S.one("opcode_node", [self.ctx.P("_sec"), self.ctx.P("i"), 0], st)
        st.tags[('node', n.o)] = 'probe'; st.tags[('probe', n.o)] = (tag, tuple(nodes))
        return st, n
    def block(self, st, *nodes):
        b = nodes[0]
        for n in nodes[1:]: st, b = self.L.op(st, "STATEMENT", b, n)
        return st, b
    def local(self, st, nm):
        st, l = self.name(st, nm, "label_node"); st, c = self.L.const(st, 0, 1)
        return self.L.op(st, "=", l, c)
    def expand(self, st, n):
        mark = st.ev
        self.I.exits.clear()
        res = self.S.call("expand_node", [n], st)
        exits = list(self.I.exits); self.I.exits.clear()
        return [(s, [e for e in scen.ev_since(s, mark) if e[0] == 'probe']) for s, _ in res], exits

def run(ctx):
    ctx.rule = "\\k inside the body == value of the k-th argument in the caller; one body per call; missing or rejected argument => error; label scopes of calls pairwise different; @l in a call is that call's"
    loops.PROBES = sorted(set(c17.loops_PROBES + c17.PROBES))
    L = loops.Loops(ctx); S, I, P = L.S, L.I, ctx.P
    libc.install_numbers(I)
    I.unroll_decided = 5000; I.exact_sort = True; I.maxrec = 30
    L.limit = 100; L.pcmax = 0xFFFF
    M = Macros(ctx, L)
    def begin(scope=None, label=None):
        st = L.begin()
        S.set(st, "current_scope", S.text(st, scope) if scope else NULL); S.set(st, "last_label", S.text(st, label) if label else NULL)
        S.set(st, "current_file_name", S.text(st, "a.asm"))
        S.set(st, "program_counter", fresh("pc", 32, 0x4000, 0x4FFF))
        return st
    count = [0, 0]
    def once(key, st, n):
        outs, exits = M.expand(st, n)
        count[0] += 1; count[1] += len(outs)
        ctx.ob(key + "/returns", outs and not exits, "the call stops the assembler (or has no outcome)", "expand.cc")
        return outs
    def same(key, s, tag, got, want, where="expand.cc"):
        """got: ((name, value, error)); want {name: value or 'error'}"""
        for nm, v, err in got:
            if nm not in want: continue
            w = want[nm]
            if w == 'error': ctx.ob(key + "/missing argument", err, "%s in %s has no argument and is silently %r" % (nm, tag, v), where)
            else:
                ctx.ob(key + "/" + nm, not err and same_bits(s, v, w, 32), "%s in %s is %r%s, the argument is %r" % (nm, tag, v, " with an error" if err else "", w), where)
    arg = lambda k, base=0x1000: fresh("arg%d" % k, 32, base + 0x1000 * k, base + 0x1000 * k + 0xFFF)
    around = [(None, None), ("s", "start"), ("s.t", None)]
    # ------------------------------------------------------------ one call, after an earlier one
    for scope, label in around:
        for have in (None, 0, 1, 3):
            st1 = begin(scope, label)
            st1, p = M.probe(st1, "body", "\\1", "\\2", "\\3", "\\4"); st1 = c17.define(L, st1, "mac", p)
            if have is not None:
                args = []
                for k in range(have): st1, a = L.const(st1, 0x10 * k + 3); args.append(a)
                st1, n = c17.call(L, st1, "mac", args)
                outs = once("earlier call", st1, n)
                st1 = outs[0][0]
            for nargs in range(0, 4):
                for kind in ("constant", "name", "sum", "location"):
                    if kind != "constant" and (nargs == 0 or have == 3): continue
                    st = st1.fork(); args, vals = [], []
                    for k in range(nargs):
                        v = arg(k)
                        if kind == "constant" or k and kind in ("sum", "location"): st, a = L.const(st, v)
                        elif kind == "name":
                            st, y = L.var(st, "v%d" % k, v); st, a = M.name(st, "v%d" % k)
                        elif kind == "sum":
                            st, y = L.var(st, "v", v); st, x = M.name(st, "v"); st, c = L.const(st, 5); st, a = L.op(st, "+", x, c); v = add(v, 5)
                        else: st, a = L.const(st, 0, 1); v = S.get(st, "program_counter")
                        args.append(a); vals.append(v)
                    # the definition's probe holds cached symbols, as a real body does
                    st, n = c17.call(L, st, "mac", args)
                    key = "call"
                    for s, ev in once(key, st, n):
                        if not ctx.ob(key + "/bodies", len(ev) == 1, "the body is expanded %d times by one call" % len(ev), "expand.cc"): continue
                        same(key, s, "body", ev[0][2], {"\\%d" % (k + 1): (vals[k] if k < nargs else 'error') for k in range(4)})
                        for other in (label, None):
                            if other: ctx.ob(key + "/scope", ev[0][3] != other, "local labels of the call belong to the caller's label", "expand.cc")
            # arguments of any value: no error => the value
            st0 = st1.fork(); st0, p = M.probe(st0, "two", "\\1", "\\2"); st0 = c17.define(L, st0, "mac2", p)
            for pos in (0, 1):
                st = st0.fork(); v = fresh("any", 32); args = []
                for k in range(2):
                    st, a = L.const(st, v if k == pos else 7); args.append(a)
                e0 = S.get(st, "error_count")
                st, n = c17.call(L, st, "mac2", args)
                for s, ev in once("any value", st, n):
                    if not ev: continue
                    nm, x, err = ev[0][2][pos]
                    ctx.ob("any value", same_bits(s, x, v, 32) or S.get(s, "error_count") != e0, "an argument is changed without an error: %r is %r" % (v, x), "expand.cc")
            # a text as argument
            st = st1.fork(); st, a = S.one("string_node", [S.text(st, '"xy"')], st); e0 = S.get(st, "error_count")
            st, n = c17.call(L, st, "mac", [a])
            for s, ev in once("text", st, n): ctx.ob("text", S.get(s, "error_count") != e0, "a text as argument is not reported", "expand.cc")
    # ------------------------------------------------------------ many parameters
    for scope, label in around[:2]:
        st = begin(scope, label)
        N = 12
        st, p = M.probe(st, "body", *["\\%d" % k for k in range(1, N + 2)]); st = c17.define(L, st, "many", p)
        vals, args = [], []
        for k in range(N): v = fresh("m%d" % k, 32, 0x100 * k, 0x100 * k + 0xFF); st, a = L.const(st, v); vals.append(v); args.append(a)
        st, n = c17.call(L, st, "many", args)
        for s, ev in once("twelve arguments", st, n):
            if ctx.ob("twelve arguments/bodies", len(ev) == 1, "%d bodies" % len(ev), "expand.cc"):
                same("twelve arguments", s, "body", ev[0][2], dict([("\\%d" % (k + 1), vals[k]) for k in range(N)] + [("\\%d" % (N + 1), 'error')]))
    # ------------------------------------------------------------ nested calls
    pats = [("\\1",), ("\\2",), ("\\2", "\\1"), ("\\1", "\\1"), ("+\\1", "c"), ("c", "+\\2"), (), ("c",), ("c", "\\1", "\\2"), ("\\3", "c", "\\1"), ("\\3", "\\1", "\\2"), ("\\4",), ("\\1", "\\4")]
    for scope, label in around[:2]:
        for pat in pats:
            for deep, low in ((False, None), (True, None), (False, 0), (True, 0), (False, 0xFFFF)):
                if low is not None and label is not None: continue
                st = begin(scope, label)
                st, p = M.probe(st, "inner", "\\1", "\\2", "\\3", "\\4"); st = c17.define(L, st, "inner", p)
                ov = [fresh("o1", 32, 0x3000, 0x3FFF), fresh("o2", 32, 0x5000, 0x5FFF), fresh("o3", 32, 0x9000, 0x9FFF)]
                cv = fresh("c", 32, 0x7000, 0x7FFF)
                if low is not None: ov = [min(low, 0xFFF0), min(low, 0xFFF0), 1]
                def arguments(st, have):
                    args, vals = [], []
                    for x in pat:
                        if x == "c": st, a = L.const(st, cv); v = cv
                        else:
                            k = int(x[-1]); v = have[k - 1] if k <= len(have) else 'error'
                            st, a = M.name(st, "\\%d" % k)
                            if x[0] == "+": st, c = L.const(st, 9); st, a = L.op(st, "+", a, c); v = add(v, 9) if v != 'error' else v
                        args.append(a); vals.append(v)
                    return st, args, vals
                outer = "outer"
                st, args, iv = arguments(st, ov)
                st, c = c17.call(L, st, "inner", args)
                st, p1 = M.probe(st, "before", "\\1", "\\2", "\\3", "\\4"); st, p2 = M.probe(st, "after", "\\1", "\\2", "\\3", "\\4")
                st, b = M.block(st, p1, c, p2)
                st = c17.define(L, st, "outer", b)
                tags = ["before", "inner", "after"]
                if deep:            # one level more, passing everything on in the other order
                    st, a1 = M.name(st, "\\3"); st, a2 = M.name(st, "\\2"); st, a3 = M.name(st, "\\1")
                    st, c = c17.call(L, st, "outer", [a1, a2, a3])
                    st, p3 = M.probe(st, "first", "\\1", "\\2", "\\3", "\\4"); st, p4 = M.probe(st, "last", "\\1", "\\2", "\\3", "\\4")
                    st, b = M.block(st, p3, c, p4); st = c17.define(L, st, "top", b); outer = "top"
                    tags = ["first"] + tags + ["last"]
                e0 = S.get(st, "error_count")
                args = []
                for v in (ov[::-1] if deep else ov): st, a = L.const(st, v); args.append(a)
                st, n = c17.call(L, st, outer, args)
                key = "nested call" + ("/three deep" if deep else "")
                bad = 'error' in iv
                for s, ev in once(key, st, n):
                    if not ctx.ob(key + "/bodies", [e[1] for e in ev] == tags, "statements expanded: %s instead of %s" % ([e[1] for e in ev], tags), "expand.cc"): continue
                    for e in ev:
                        h = ov[::-1] if e[1] in ("first", "last") else iv if e[1] == "inner" else ov
                        if e[1] == "inner" and bad:
                            ctx.ob(key + "/missing argument", S.get(s, "error_count") != e0, "a missing argument passed on is not reported", "expand.cc"); continue
                        same(key, s, e[1], e[2], {"\\%d" % (k + 1): (h[k] if k < len(h) else 'error') for k in range(4)})
                    sc = {}
                    for e in ev: sc.setdefault({"after": "before", "last": "first"}.get(e[1], e[1]), set()).add(e[3])
                    ctx.ob(key + "/scopes", all(len(x) == 1 for x in sc.values()) and len(set.union(*sc.values())) == len(sc), "label scopes of the calls: %s" % {k: sorted(map(str, v)) for k, v in sc.items()}, "expand.cc")
    # ------------------------------------------------------------ scopes of many calls
    seen = {}
    long = "w" * 190
    st = begin(None, "start")
    cells = {}
    for nm in ("m", "m1", "mm", "m_0000", "n", long + "a", long + "b"):
        st, p = M.probe(st, nm); st = c17.define(L, st, nm, p)
        forced = [None] * 20 + [0xFE, 0xFF, 0x100, 0x101, 0xFFF, 0x1000, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x100000, 0xFFFFFF, 0x1000000, 0x7FFFFFFE]
        for t in forced:
            if t is not None:
                d = S.get(st, "macro_dict", PT) if ctx.mod.gv("macro_dict") is not None else NULL
                if not isinstance(d, Ptr) or d.o is None: continue
                st, e = S.one("dict_search", [d, S.text(st, nm)], st)
                if not isinstance(e, Ptr) or e.o is None: continue
                if nm == "m" and nm not in cells and I.load(st, e, I32) == 20:
                    # whatever the number of earlier calls, it grows by the call
                    s2 = st.fork(); n = fresh("calls", 32, 0, 0x7FFFFFF0)
                    I.store(s2, e, n, I32)
                    s2, nd = c17.call(L, s2, nm, [])
                    for s3, ev in once("scopes", s2, nd):
                        ctx.ob("scopes/count", s3.rng(sub(I.load(s3, e, I32), n))[0] > 0, "after a number of calls (%r) the count of calls is %r" % (n, I.load(s3, e, I32)), "expand.cc")
                if I.load(st, e, I32) == cells.get(nm, 20): I.store(st, e, t, I32); cells[nm] = t + 1
            st, n = c17.call(L, st, nm, [])
            outs = once("scopes", st, n)
            st, ev = outs[0]
            if not ctx.ob("scopes/bodies", len(ev) == 1, "%d bodies" % len(ev), "expand.cc"): continue
            lab = ev[0][3]
            ctx.ob("scopes", isinstance(lab, str) and lab.lower() not in seen, "the local labels of call %s of %s share the scope of %s (%s)" % (t if t is not None else "", nm[:20], seen.get(str(lab).lower()), str(lab)[-24:]), "expand.cc")
            seen[str(lab).lower()] = (nm[-9:], t)
    ctx.need(len(seen) >= 7 * 20, "scopes")
    ctx.extra["different scopes"] = len(seen)
    # ------------------------------------------------------------ local labels in passes
    passes(ctx, M, begin, once, around)
    ctx.extra["calls"] = count[0]; ctx.extra["paths"] = count[1]
    ctx.need(count[0] >= 150, "calls")

def passes(ctx, M, begin, once, around):
    """programs with local labels in macros; every pass parses again, statement by statement"""
    L, S, I, P = M.L, M.S, M.I, ctx.P
    tagged = [0]
    def ref(st, tag, nm="@l"):
        """jmp nm: evaluated while it is parsed, as the grammar's actions do"""
        st, q = M.name(st, nm)
        st, n = S.one("opcode_node", [P("_jmp"), P("a"), 1, q], st)
        st.tags[('node', n.o)] = 'probe'; st.tags[('probe', n.o)] = (tag, (("expr", q),))
        return st, n
    def macro(st, nm, build):
        S.set(st, "in_macro_definition", 1)
        st, nodes = build(st)
        st, b = M.block(st, *nodes)
        st, i = S.one("macro_id_node", [S.text(st, nm)], st); st, n = L.op(st, "MACRO", i, b)
        S.set(st, "in_macro_definition", 0)
        return S.one("expand_node", [n], st)[0]
    def three(tag, inner=None):
        def build(st):
            st, a = ref(st, tag + " before"); st, d = M.local(st, "@l")
            nodes = [a, d]
            if inner: st, c = c17.call(L, st, inner, []); nodes.append(c)
            st, b = ref(st, tag + " after"); nodes.append(b)
            return st, nodes
        return build
    def labels_only(st):
        st, d = M.local(st, "@l"); st, b = ref(st, "first after"); return st, [d, b]
    def with_plain(st):
        st, a = ref(st, "plain"  " before"); st, x = M.name(st, "pl", "label_node"); st, c = L.const(st, 0, 1); st, x = L.op(st, "=", x, c)
        st, d = M.local(st, "@l"); st, b = ref(st, "plain after"); return st, [a, x, d, b]
    defs = {"inner": three("inner"), "outer": three("outer", "inner"), "first": labels_only, "plain": with_plain}
    def step(st, n, evs):
        outs = once("passes", st, n)
        if len(outs) != 1: raise Broken("a statement has %d outcomes" % len(outs))
        evs += outs[0][1]
        return outs[0][0]
    def program(st, items, evs):
        for it in items:
            k, x = it[0], it[1]
            if k == "def": st = macro(st, x, defs[x])
            elif k == "call": st, n = c17.call(L, st, x, []); st = step(st, n, evs)
            elif k == "ref": st, n = ref(st, it[2], x); st = step(st, n, evs)
            elif k in ("label", "line"):        # alone | in front of a reference on the same line (parsed first)
                if k == "line": st, n = ref(st, it[3], it[2])
                st, l = M.name(st, x, "label_node"); st, c = L.const(st, 0, 1); st, d = L.op(st, "=", l, c)
                st = step(st, d, evs)
                if k == "line": st = step(st, n, evs)
        return st
    def oracle(items, p0):
        """[(tag, scope of the reference or None, position of the label it means)]"""
        where, uses, pos, calls = {}, [], [p0], [0]
        scope = [""]
        def use(tag, sc): uses.append((tag, sc)); pos[0] = add(pos[0], 3)
        def expand(nm):
            calls[0] += 1; sc = "call %d" % calls[0]
            if nm != "first": use(nm + " before", sc)
            where[sc] = pos[0]
            if nm == "outer": expand("inner")
            use(nm + " after", sc)
        for it in items:
            k, x = it[0], it[1]
            if k == "call": expand(x)
            elif k == "ref": use(it[2], scope[0])
            elif k in ("label", "line"):
                if x[0] == "@": where[scope[0]] = pos[0]
                else: scope[0] = x
                if k == "line": use(it[3], scope[0])
        return [(t, where[s]) for t, s in uses]
    progs = {
        "no label": [("def", "inner"), ("def", "outer"), ("def", "first"), ("call", "inner"), ("call", "first"), ("call", "outer"), ("call", "inner"), ("call", "first")],
        "label before the definition": [("label", "start"), ("def", "inner"), ("def", "first"), ("def", "outer"), ("call", "inner"), ("call", "outer"), ("call", "first"), ("call", "inner")],
        "local label of its own": [("label", "start"), ("ref", "@l", "own before"), ("def", "inner"), ("def", "first"), ("label", "@l"), ("call", "inner"), ("call", "first"), ("ref", "@l", "own after"), ("call", "inner")],
        "definition between": [("label", "start"), ("ref", "@l", "own before"), ("def", "plain"), ("call", "plain"), ("label", "@l"), ("ref", "@l", "own after")],
        "labels between the calls": [("def", "inner"), ("call", "inner"), ("line", "s1", "@l", "own before"), ("call", "inner"), ("label", "@l"), ("line", "s2", "@l", "own before"), ("call", "inner"), ("line", "@l", "@l", "own after")],
    }
    for scope, label in around:
        for pname, items in progs.items():
            st = begin(scope, None)
            p0 = S.get(st, "program_counter")
            for pas in range(3):
                S.set(st, "program_counter", p0)
                if pas: st, _ = S.one("reset_macro_dict", [], st)
                S.set(st, "current_scope", S.text(st, scope) if scope else NULL); S.set(st, "last_label", NULL)
                S.set(st, "sym_value_changed", 0)
                evs = []
                st = program(st, items, evs)
                want = oracle(items, p0)
                got = [(e[1], e[2][0][1]) for e in evs]
                key = "passes/" + pname
                if not ctx.ob(key + "/statements", [x[0] for x in got] == [x[0] for x in want], "%s" % [x[0] for x in got], "expand.cc"): break
                for (tag, v), (_, x) in zip(got, want):
                    if pas == 0 and tag.endswith("before"): continue
                    ctx.ob("%s/%s" % (key, tag), same_bits(st, v, x, 32), "pass %d: @l %s is %r, the label of this scope is at %r" % (pas + 1, tag, v, x), "expand.cc")
                if pas == 0: continue
                for s, k in S.call("unresolved_symbol_count", [], st.fork()): ctx.ob(key + "/resolved", same_bits(s, k, 0, 32), "pass %d leaves %r symbols unresolved" % (pas + 1, k), "expand.cc, node.cc")
                if pas == 2: ctx.ob(key + "/settled", S.get(st, "sym_value_changed") == 0, "labels change in the third pass", "expand.cc")
