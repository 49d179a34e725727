"""C22: released memory is never used or released again."""
from .common import *
from .common import _ai
from . import scen, front, c21, c23
from .scen import I8, I32, I64, PT
from engine import libc
from engine.dom import sub, OBJS
EXPLANATION = ("Memory has a lifetime in the abstract interpreter: every read, write, string or release of a block is checked against it. Whole assemblies (assemble(): address passes, writing pass, image, symbol and list "
               "file, verbose output, release of tree and rows) are followed for statements of every kind alone and in ordered pairs, the parser replaced by the node constructors and expand_node() it calls; so are every "
               "scanner rule with the token kept so far, the dictionary, stack, row and line functions over sequences of calls, and every formatting function with texts of any length (C21's situations).")
ASSUMPTIONS = ["statements of a pass are given to the expander as the grammar does; two statements stand for longer programs (C17 decides that a statement restores the state around it)"]
HARM = ('uaf', 'doublefree', 'badfree', 'wild-free')
TOK = ["EQU", "SECTION", "ENDSECTION", "MACRO", "EXPRLIST", "VAR", "IF", "STATEMENT", "FOR", "REPEAT", "DO", "WHILE", "REGX", "REGY", "DS", "ORG", "FILL", "PCASSIGN", "PRINT", "PRINTALL", "LOAD", "INC", "END", "EQ", "LT", "OR",
       "data_byte", "data_word", "data_string"]
TOK = [t for t in TOK if t != "LT"]
MODES = ["i", "I", "r", "a", "zp", "A", "ax", "zpx"]
OPS = ["lda", "jmp", "bne", "nop", "ldx", "asl"]
PROBES = ["E(%s)" % t for t in TOK] + ["E(%s)" % m for m in MODES] + ["E(_%s)" % o for o in OPS] + c21.PROBES + ["O(stack,%s)" % f for f in ("push", "pop", "top", "clear")]

def harm(st, mark): return [e for e in scen.ev_since(st, mark) if e[0] in HARM]
def tell(e): return {"uaf": "released memory is used", "doublefree": "memory is released twice", "badfree": "something that was not allocated is released", "wild-free": "an unknown address is released"}[e[0]] + " (%s)" % ", ".join(map(str, e[2:]))

class Session:
    def __init__(self, ctx):
        self.ctx = ctx
        self.S = S = scen.Scn(ctx, sorted(set(PROBES)))
        self.I = I = S.I
        I.models.pop("generate_list_node", None)
        I.models.pop("yymessage", None)
        libc.install_numbers(I)
        I.unroll_decided = 20000; I.exact_sort = True; I.maxrec = 40
        I.fopen_null = False
        I.stream_open = lambda I, st, a, inst: 1
        self.sites = watch(I)
        self.mode = ""
        M = I.models
        quiet = lambda I, st, a, inst: None
        for n in ("yyrestart", "yypush_buffer_state", "yypop_buffer_state"): M[n] = quiet
        M["yy_create_buffer"] = lambda I, st, a, inst: Ptr(self.buf.o, 0)
        made = ctx.fn("dict_create")
        def create(I, st, a, inst):
            """with few lists, so that chains form and the dictionary grows"""
            r = I.exec(made, a, st, inst)
            for s, d in r:
                if isinstance(d, Ptr) and d.o is not None: S.wr(s, d, "dict", "size", 12, I64)
            return r
        M["dict_create"] = create
        self.buf = S.file(I, "buffer")
        def opened(I, st, a, inst):
            I.check_access(st, a[0], 1, inst, 'load')
            t = libc.get_txt(I, st, a[0])
            main = t and len(t) == 1 and t[0][0] == 'lit' and t[0][1] in ("a.asm", "b.asm")
            if self.mode == "no input" or self.mode == "unreadable" and not main: return NULL
            return S.file(I, "source")
        M["open_file"] = opened
        def fgets(I, st, a, inst):
            f = a[2]
            n = st.tags.get(('read', f.o), 0) if isinstance(f, Ptr) else 9
            if n >= 2: return NULL
            st.tags[('read', f.o)] = n + 1
            libc.put_const(I, st, a[0], "line\n")
            return a[0]
        M["fgets"] = fgets
        M["fgetc"] = M["getc"] = lambda I, st, a, inst: -1
        M["fread"] = lambda I, st, a, inst: 0
        M["fseek"] = lambda I, st, a, inst: 0
        M["ftell"] = lambda I, st, a, inst: 0
        M["feof"] = lambda I, st, a, inst: int(not isinstance(a[0], Ptr) or st.tags.get(('read', a[0].o), 0) >= 2)
        def yyparse(I, st, a, inst):
            out = [st]
            for s in self.program:
                nxt = []
                for t in out: nxt += s(t)
                out = nxt
                if len(out) > 64: raise Broken("too many paths in a program")
            return [(t, 0) for t in out]
        M["yyparse"] = yyparse
    def dup(self, st, s):
        """text as the scanner hands it over"""
        r = self.I.models["strdup"](self.I, st, [self.S.text(st, s)], None)
        return r[0][1] if isinstance(r, list) else r
    def call(self, fn, args, st):
        return self.I.call(self.ctx.fn(fn), args, st)
    def one(self, fn, args, st):
        r = self.call(fn, args, st)
        if len(r) != 1: raise Broken("%s has %d outcomes" % (fn, len(r)))
        return r[0]
    # ------------------------------------------------ nodes
    def name(self, s, kind="id_node"): return lambda st: self.one(kind, [self.dup(st, s)], st)
    def const(self, v, pc=0): return lambda st: self.one("constant_node", [v, pc], st)
    def string(self, s): return lambda st: self.one("string_node", [self.dup(st, '"%s"' % s)], st)
    def op(self, tok, *ops):
        def f(st):
            ns = []
            for o in ops: st, n = o(st); ns.append(n)
            return self.one("operator_node", [self.ctx.P(tok) if len(tok) > 1 else ord(tok), len(ns)] + ns, st)
        return f
    def ins(self, o, m, *ops):
        def f(st):
            ns = []
            for x in ops: st, n = x(st); ns.append(n)
            return self.one("opcode_node", [self.ctx.P("_" + o), self.ctx.P(m), len(ns)] + ns, st)
        return f
    def lst(self, *xs):
        f = self.op("EXPRLIST", xs[0])
        for x in xs[1:]: f = self.op("EXPRLIST", f, x)
        return f
    def data(self, kind, *xs):
        l = self.lst(*xs)
        def f(st):
            st, n = l(st)
            return self.one("data_node", [self.ctx.P(kind), n], st)
        return f
    def call_macro(self, nm, *xs):
        def f(st):
            n = NULL
            if xs: st, n = self.lst(*xs)(st)
            return self.one("macro_expand_node", [self.dup(st, nm), n], st)
        return f
    def macro(self, nm, body):
        def f(st):
            S = self.S
            S.set(st, "in_macro_definition", 1)
            st, b = body(st)
            st, n = self.op("MACRO", self.name(nm, "macro_id_node"), lambda st: (st, b))(st)
            S.set(st, "in_macro_definition", 0)
            return st, n
        return f
    def stmt(self, f):
        """as the grammar: the node is built and expanded"""
        def g(st):
            st, n = f(st)
            S = self.S
            y = S.get(st, "yylineno"); S.set(st, "yylineno", add(y, 1))
            return [s for s, v in self.call("expand_node", [n], st)]
        return g
    def inner(self, nm):
        """a label in a macro"""
        return self.op("=", self.name(nm, "label_node"), self.const(0, 1))
    def label(self, nm):
        def g(st):
            st, n = self.name(nm, "label_node")(st); st, c = self.const(0, 1)(st)
            st, n = self.one("operator_node", [ord('='), 2, n, c], st)
            S = self.S
            y = S.get(st, "yylineno"); S.set(st, "yylineno", add(y, 1))
            return [s for s, v in self.call("expand_node", [n], st)]
        return g
    def block(self, *xs):
        f = self.op("STATEMENT", *xs[:2])
        for x in xs[2:]: f = self.op("STATEMENT", f, x)
        return f
    def included(self, *steps):
        """.inc and the end of the included file"""
        def g(st):
            S, I = self.S, self.I
            out = []
            def each(st, v):
                st, n = self.op("INC", self.string("i.inc"))(st)
                keep = (S.get(st, "current_file_name", PT), S.get(st, "yylineno"))
                res = [s for s, v in self.call("expand_node", [n], st)]
                for x in steps: res = [t for s in res for t in x(s)]
                for s in res:
                    S.set(s, "current_file_name", keep[0]); S.set(s, "yylineno", keep[1])
                    fs = S.get(s, "file_stack", PT)
                    if isinstance(fs, Ptr) and fs.o is not None:
                        q = S.rd(s, fs, "stack", "instance", PT); k = S.rd(s, q, "instance_data", "index", I64)
                        S.wr(s, q, "instance_data", "index", sub(k, 1), I64)
                out.extend(res)
            each(st, None)
            return out
        return g
    def variant(self, mode):
        self.mode = mode
        self.I.fopen_null = mode in ("no output",)
    def assemble(self, key, program, verbose=0):
        S, I, ctx = self.S, self.I, self.ctx
        self.program = program
        st = S.start()
        S.set(st, "verbose", verbose)
        a = I.alloc("input names", 'heap', 16, 'undef'); st.nonnull = st.nonnull | {a.id}
        I.store(st, Ptr(a.id, 0), S.text(st, "a.asm"), PT); I.store(st, Ptr(a.id, 8), S.text(st, "b.asm"), PT); S.set(st, "input_files", Ptr(a.id, 0))
        S.set(st, "input_file_count", 2 if self.mode == "two files" else 1)
        for n, v in (("output_file_name", "a.bin"), ("sym_file_name", "a.sym"), ("list_file_name", "a.lst"), ("log_file_name", None)):
            S.set(st, n, S.text(st, v) if v else NULL)
        S.set(st, "cpu_mode", 1)
        mark = st.ev
        I.exits.clear()
        try: res = self.S.call("assemble", [], st)
        except _ai.AnalysisError as e: raise Broken("%s: %s" % (key, e)) from e
        ends = [s for s, v in res] + [e[0] for e in I.exits]
        I.exits.clear()
        bad = {}
        for s in ends:
            for e in harm(s, mark): bad.setdefault((e[1], e[0]), e)
        ctx.ob(key, not bad and ends, "; ".join("%s at %s" % (tell(e), e[1]) for e in list(bad.values())[:3]) or "no outcome", list(bad)[0][0] if bad else "pass.cc (assemble)")
        return [v for s, v in res], ends

def pieces(X):
    n, c, s, op, ins = X.name, X.const, X.string, X.op, X.ins
    st = X.stmt
    nop = ins("nop", "i")
    body = X.block(nop, ins("lda", "a", n("tab")))
    return {
        "label": [X.label("lab")],
        "local label": [X.label("lab2"), X.label("@l"), st(ins("bne", "r", n("@l")))],
        "reference": [X.label("lab"), st(ins("jmp", "a", n("lab"))), st(ins("jmp", "a", n("far"))), X.label("far")],
        "anonymous": [X.label("-"), st(ins("bne", "r", n("-"))), st(ins("jmp", "a", n("+"))), X.label("+")],
        "symbol": [st(op("EQU", n("sy"), c(5))), st(op("EQU", n("sz"), op("+", n("sy"), c(1))))],
        "section": [st(op("SECTION", n("sec"))), X.label("tab"), st(op("EQU", n("q"), c(3))), st(ins("lda", "zp", n("q"))), st(op("ENDSECTION")), st(ins("lda", "a", n("sec.tab")))],
        "nested section": [st(op("SECTION", n("s1"))), st(op("SECTION", n("s2"))), X.label("tab"), st(op("ENDSECTION")), X.label("t1"), st(op("ENDSECTION"))],
        "dotted section": [st(op("SECTION", n("s1.s3"))), X.label("dot"), st(op("ENDSECTION")), st(ins("lda", "a", n("s1.s3.dot")))],
        "dotted symbol": [st(op("EQU", n("d1.e"), c(4))), st(ins("lda", "zp", n("d1.e"))), st(op("SECTION", n("s4"))), st(op("EQU", n("d2.f"), c(6))), st(ins("lda", "zp", n("d2.f"))), st(op("VAR", op("EXPRLIST", n("d3.g"), c(1)))), st(op("ENDSECTION"))],
        "open section": [st(op("SECTION", n("open"))), X.label("tab3")],
        "stray end": [st(op("ENDSECTION"))],
        "bytes": [X.label("lab"), st(X.data("data_byte", c(1), s("abc"), op("-", n("lab"), n("lab"))))],
        "words": [st(X.data("data_word", c(1), s("ab"), c(0x1234)))],
        "text": [st(X.data("data_string", s("hello"), c(0)))],
        "macro": [X.label("lab"), st(X.macro("mac", X.block(ins("lda", "a", n("\\1")), nop))), st(X.call_macro("mac", c(7))), st(X.call_macro("mac", op("+", n("lab"), c(1))))],
        "macro with labels": [st(X.macro("ml", X.block(X.inner("@in"), ins("bne", "r", n("@in"))))), st(X.call_macro("ml")), st(X.call_macro("ml"))],
        "macro in a macro": [st(X.macro("ma", X.block(ins("lda", "a", n("\\1")), nop))), st(X.macro("mb", X.block(X.call_macro("ma", n("\\1")), nop))), st(X.call_macro("mb", c(9)))],
        "missing argument": [st(X.macro("mm", X.block(ins("lda", "a", n("\\2")), nop))), st(X.call_macro("mm", c(7)))],
        "unknown macro": [st(X.call_macro("nomac", c(7)))],
        "variable": [st(op("VAR", op("EXPRLIST", n("v1"), c(3)))), st(op("EQU", n("v1"), op("+", n("v1"), c(1)))), st(X.data("data_byte", n("v1")))],
        "condition": [X.label("tab"), st(op("IF", c(1), body, nop)), st(op("IF", c(0), body, nop))],
        "for": [st(op("VAR", op("EXPRLIST", n("fv"), c(0)))), st(op("FOR", op("EQU", n("fv"), c(1)), c(2), X.data("data_byte", n("fv")), n("fv")))],
        "repeat": [st(op("VAR", op("EXPRLIST", n("rv"), c(0)))), st(op("REPEAT", X.block(nop, op("EQU", n("rv"), op("+", n("rv"), c(1)))), op("EQ", n("rv"), c(2))))],
        "while": [st(op("VAR", op("EXPRLIST", n("wv"), c(2)))), st(op("WHILE", n("wv"), X.block(nop, op("EQU", n("wv"), op("-", n("wv"), c(1))))))],
        "do": [st(op("VAR", op("EXPRLIST", n("dv"), c(2)))), st(op("DO", X.block(nop, op("EQU", n("dv"), op("-", n("dv"), c(1)))), n("dv")))],
        "register loop": [X.label("lab"), st(op("REGX", c(1), c(5), X.block(nop, ins("lda", "a", n("lab"))), c(1)))],
        "space": [st(op("DS", c(4))), st(op("FILL", c(0xEA), c(5)))],
        "origin": [st(op("ORG", c(0x2000)))],
        "location counter": [st(op("PCASSIGN", c(0, 1), c(0x3000)))],
        "print": [X.label("lab"), st(op("PRINT", X.lst(s("value"), n("lab")))), st(op("PRINTALL", X.lst(s("value"), c(3))))],
        "load": [st(op("LOAD", s("data.bin")))],
        "include": [X.included(X.label("inl"), st(nop), X.label("-"), st(ins("bne", "r", n("-")))), st(nop)],
        "instructions": [st(ins("lda", "I", c(5))), st(ins("lda", "zp", c(5))), st(ins("asl", "A")), st(ins("lda", "ax", c(0x1234))), st(nop)],
        "far branch": [st(ins("bne", "r", n("distant"))), st(op("DS", c(300))), X.label("distant")],
        "unresolved": [st(ins("jmp", "a", n("nowhere")))],
        "redefined": [X.label("twice"), st(nop), X.label("twice")],
        
        "end": [st(op("END")), st(nop)],
    }


# ------------------------------------------------------------------ whole assemblies
SLOW = ("unknown macro", "unresolved", "redefined")
def job(js):
    """programs, in a process of their own -> obligations"""
    ctx, X, P = job.shared
    ctx.obs.clear(); X.sites.clear()
    accepted = paths = 0; err = None
    for names, mode in js:
        prog = [x for n in names for x in P[n]]
        X.variant(mode)
        try: r, ends = X.assemble("program: %s%s" % (" then ".join(names), ", " + mode if mode else ""), prog, 1 if mode == "verbose" else 0)
        except (Broken, _ai.AnalysisError) as e: err = "%s (%s %s)" % (e, names, mode); break
        accepted += bool(r) and all(x == 0 for x in r); paths += len(ends)
    I = X.I
    return dict(ctx.obs), accepted, paths, set(X.sites), (I.analysed, I.callsites, I.branches, I.loops_done, I.steps), err

def programs(ctx):
    import multiprocessing as mp, os
    X = Session(ctx)
    P = pieces(X)
    fast = [k for k in P if k not in SLOW]
    jobs = [((k,), m) for k in P for m in ("", "verbose")]
    jobs += [((k,), m) for k in ("include", "load", "label") for m in ("no input", "no output", "unreadable")]
    jobs += [((k,), "two files") for k in ("label", "section", "open section", "macro", "include", "anonymous", "symbol", "stray end")]
    jobs += [((a, b), "") for a in fast for b in fast]
    jobs += [((a, b), "") for a in SLOW for b in ("label", "open section", "macro with labels", "include")]
    job.shared = (ctx, X, P)
    accepted = paths = 0; sites = set()
    k = 48
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        I = X.I; errs = []
        for obs, ok, n, ss, cov, err in pool.imap_unordered(job, [jobs[i::k] for i in range(k)]):
            for key, (good, d, w) in obs.items(): ctx.ob(key, good, d, w)
            if err: errs.append(err)
            accepted += ok; paths += n; sites |= ss
            I.analysed |= cov[0]; I.callsites |= cov[1]; I.branches |= cov[2]; I.loops_done |= cov[3]; I.steps += cov[4]
    if errs: raise Broken(errs[0])
    ctx.need(accepted >= len(fast) * len(fast) // 3, "accepted programs")
    ctx.extra["programs"] = len(jobs); ctx.extra["programs accepted"] = accepted; ctx.extra["paths of programs"] = paths
    return sites

# ------------------------------------------------------------------ the scanner
def scanner(ctx):
    F = front.Front(ctx, c23.PROBES); S, I = F.S, F.I
    libc.install_numbers(I)
    sites = watch(I)
    W = c23.Watch(ctx, F); W.sizes = c23.stack_globals(ctx); W.names = sorted(W.sizes)
    n = 0
    def ready(eof):
        st = F.state()
        for nm in W.names:
            p = S.get(st, nm)
            if isinstance(p, Ptr) and p.o is None:
                st, q = S.one("create_stack", [W.sizes.get(nm, 16)], st); S.set(st, nm, q)
        W.empty(st, 'used')
        for nm in W.names:
            q = S.rd(st, S.get(st, nm), "stack", "instance", PT); S.wr(st, q, "instance_data", "index", 2, I64)
        S.set(st, "yyout", S.console)
        if eof:
            arr = I.alloc("buffers", 'heap', 64, 'undef'); st.nonnull = st.nonnull | {arr.id}
            st.wcells(arr.id)[0] = (8, NULL)
            S.set(st, "yy_buffer_stack", Ptr(arr.id, 0)); S.set(st, "yy_buffer_stack_top", 0)
        return st
    ini = F.scan.conds["INITIAL"]
    plain = F.top(ini, b"zz", b" ")
    ctx.need(len(plain or []), "scanner rule of a name")
    def own(st, lt):
        """the token kept so far lies in memory of its own"""
        if lt is None: F.last_token(st, None); return st
        q = I.models["strdup"](I, st, [S.text(st, lt)], None)
        if isinstance(q, list): st, q = q[0]
        S.set(st, "last_token", q); return st
    for cname, cond in sorted(F.scan.conds.items()):
        for rule in sorted(c23.rules_of(F, cond) | {F.scan.eof_rule(cond)}):
            if rule not in F.lex.cases: continue
            eof = rule == F.scan.eof_rule(cond)
            for lt in (None, "\n", ".mac"):
                st = own(ready(eof), lt); S.set(st, "yy_start", 1 + 2 * cond)
                for v, lo, hi in (("do_count", 0, 1 << 20), ("in_macro_definition", 0, 2)): F.anyvar(st, v, lo, hi)
                text = c23.sample(F, cond, rule)
                F.yytext(st, text)
                key = "scanner: %s, mode %s" % ("end of file" if eof else "rule for %r" % text.lower().replace("\n", "<nl>"), cname)
                mark = st.ev; n += 1
                ends = []
                for kind, s, v in F.act(rule, st):
                    t = s.fork(); F.yytext(t, "zz")
                    ends += [x for k, x, w in F.act(plain[0], t)]
                    ends += [x for x, w in S.call("reset_scanner", [], s.fork())]
                    F.yytext(s, text)
                    ends += [x for k, x, w in F.act(rule, s)]
                bad = {}
                for s in ends:
                    for e in harm(s, mark): bad.setdefault((e[1], e[0]), e)
                ctx.ob(key, not bad, "; ".join("%s at %s" % (tell(e), e[1]) for e in list(bad.values())[:3]), list(bad)[0][0] if bad else "pasm.l")
    ctx.need(n >= 300, "scanner actions")
    ctx.extra["scanner actions"] = n
    return sites

def watch(I):
    """where memory is released"""
    sites = set(); f = I.models["free"]
    def free(I, st, a, inst):
        if inst is not None: sites.add(site(inst))
        return f(I, st, a, inst)
    I.models["free"] = free
    return sites
def site(inst): return "%s:%d" % (inst.file.split("/")[-1], inst.line)

# ------------------------------------------------------------------ dictionary
def library(ctx):
    S = scen.Scn(ctx, sorted(set(PROBES))); I = S.I
    I.models.pop("generate_list_node", None)
    I.unroll_decided = 20000; I.unroll = 12
    sites = watch(I)
    n = 0
    def over(key, st, mark, ends, where):
        bad = {}
        for s in ends:
            for e in harm(s, mark): bad.setdefault((e[1], e[0]), e)
        ctx.ob(key, not bad, "; ".join("%s at %s" % (tell(e), e[1]) for e in list(bad.values())[:3]), list(bad)[0][0] if bad else where)
    def hashed(I, st, a, inst):
        return [2, 5, 2, 7, 4, 2][[p.o for p in ptrs].index(a[0].o)] if isinstance(a[0], Ptr) and a[0].o in [p.o for p in ptrs] else fresh("hash", 64, 0, 1 << 30)
    if ctx.mod.fn("hash_pointer_function") is not None: I.models["hash_pointer_function"] = hashed
    NM = ["ab", "cd", "ef", "gh", "ij", "kl"]
    for kt, kn in ((0, "names"), (1, "pointers")):
        for size in (1, 2, 3, 7):
            for plan in ("iiii", "iiiid0s0d1s1d2d3", "iid1d1s1is1d0d2", "iiiiii" , "id0s0id1s1", "rrd0s0d0s0", "iiid2d1d0iii", "rid0d0rd1s1"):
                st = S.start(); mark = st.ev
                for k in range(len(NM)): st.tags.pop(k, None)
                st, d = S.one("dict_create", [8, kt], st)
                # a small table, so that chains form and it grows
                S.wr(st, d, "dict", "size", size, I64)
                h = I.alloc("variable", 'heap', 8, 'undef'); st.nonnull = st.nonnull | {h.id}; H = Ptr(h.id, 0); I.store(st, H, d, PT)
                ptrs = [Ptr(I.alloc("key", 'heap', 8, 'havoc').id, 0) for _ in NM]; st.nonnull = st.nonnull | {p.o for p in ptrs}
                key = lambda k: S.text(st, NM[k % len(NM)]) if kt == 0 else ptrs[k % len(NM)]
                val = I.alloc("value", 'heap', 8, 'havoc'); st.nonnull = st.nonnull | {val.id}
                k = 0; j = 0; states = [st]
                while j < len(plan):
                    op = plan[j]; j += 1
                    nxt = []
                    for st in states:
                        q = I.load(st, H, PT)
                        if op in "ir":
                            r = S.call("dict_insert", [H, key(0 if op == 'r' else k), Ptr(val.id, 0)], st)
                        else:
                            r = S.call("dict_delete" if op == 'd' else "dict_search", [q, key(int(plan[j]))], st)
                        nxt += [s for s, v in r]
                    if op in "ds": j += 1
                    if op == 'i': k += 1
                    states = nxt
                    if len(states) > 64: raise Broken("too many paths in the dictionary")
                ends = []
                for st in states: ends += [s for s, v in S.call("dict_destroy", [I.load(st, H, PT)], st)]
                n += 1
                over("dictionary of %s, %d lists: %s" % (kn, size, plan), None, mark, ends, "dictionary.cc")
    # stacks
    for plan in ("ud", "uood", "uouod", "d", "u30d", "uctud", "u30cd", "ucu30ood", "d2"):
        st = S.start(); mark = st.ev
        st, sp = S.one("create_stack", [8], st)
        v = I.alloc("item", 'heap', 8, 'havoc'); st.nonnull = st.nonnull | {v.id}
        inst = lambda s: S.rd(s, sp, "stack", "instance", PT)
        states = [st]
        j = 0; dead = False
        while j < len(plan):
            op = plan[j]; j += 1
            cnt = ""
            while j < len(plan) and plan[j].isdigit(): cnt += plan[j]; j += 1
            for _ in range(int(cnt or 1)):
                nxt = []
                for s in states:
                    if op == 'd':
                        if dead: nxt.append(s); continue
                        nxt += [t for t, w in S.call("free_stack", [sp], s)]
                    else:
                        f = S.rd(s, sp, "stack", {'u': "push", 'o': "pop", 't': "top", 'c': "clear"}[op], PT)
                        if not isinstance(f, Ptr) or f.o is None or OBJS[f.o].kind != "func": raise Broken("operation of a stack")
                        nxt += [t for t, w in I.call(OBJS[f.o].ref, [inst(s)] + ([Ptr(v.id, 0)] if op == 'u' else []), s)]
                states = nxt
                if op == 'd': dead = True
        n += 1
        over("stack: %s" % plan, None, mark, states, "stacks.cc")
    # parameters of macro calls
    for count in (0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 17, 32, 33, 64):
        for plan in ("uo", "uuoo", "uouuoo"):
            st = S.start(); mark = st.ev
            S.set(st, "symbol_dictionary", NULL)
            for j in range(1, count + 1): st, _ = S.one("add_symbol", [S.text(st, "\\%d" % j)], st)
            S.set(st, "max_macro_param", count)
            states = [st]
            for op in plan:
                nxt = []
                for s in states: nxt += [t for t, w in S.call("push_macro_params" if op == 'u' else "pop_macro_params", [], s)]
                states = nxt
                if not states or len(states) > 64: raise Broken("paths of the parameters of macro calls: %d" % len(states))
            n += 1
            over("%d parameters of macro calls: %s" % (count, plan), None, mark, states, "sym.cc (push_macro_params)")
    # rows and lines
    def fopen_lines(k):
        cnt = [0]
        def fgets(I, st, a, inst):
            c = st.tags.get('read', 0); st.tags['read'] = c + 1
            if c >= k: return NULL
            libc.put_const(I, st, a[0], "line\n"); return a[0]
        return fgets
    for k in range(5):
        I.models["fgets"] = fopen_lines(k)
        I.models["open_file"] = lambda I, st, a, inst: S.file(I, "source")
        st = S.start(); mark = st.ev
        b = I.alloc("line buffer", 'heap', ctx.P("max_line_len"), 'undef'); st.nonnull = st.nonnull | {b.id}; S.set(st, "internal_buffer", Ptr(b.id, 0))
        ends = []
        for s, h in S.call("read_file_lines", [S.text(st, "a.asm")], st):
            if isinstance(h, Ptr) and h.o is not None: ends += [t for t, w in S.call("free_file_lines", [h], s)]
            else: ends.append(s)
        n += 1
        over("lines of a file, %d of them" % k, None, mark, ends, "file.cc")
    ctx.extra["library sequences"] = n
    ctx.need(n >= 60, "library sequences")
    return sites

# ------------------------------------------------------------------ strings
def strings(ctx):
    S = scen.Scn(ctx, []); I = S.I
    I.unroll_decided = 5000; I.unroll = 5000
    sites = watch(I); n = 0
    for t in ["", "a", "abc", "\\n", "a\\x41b", "\\x4142", "\\q", "a\\", "\\x", "\\x4", "\\xg", "\\\"", "x" * 300]:
        for fn in ("sanitize_string", "string_node"):
            st = S.start(); mark = st.ev
            q = I.models["strdup"](I, st, [S.text(st, '"%s"' % t if fn == "string_node" else t)], None)
            if isinstance(q, list): st, q = q[0]
            ends = [s for s, v in S.call(fn, [q], st)]; n += 1
            bad = {}
            for s in ends:
                for e in harm(s, mark): bad.setdefault((e[1], e[0]), e)
            ctx.ob("text converted by %s" % fn, not bad, "%r: " % t + "; ".join("%s at %s" % (tell(e), e[1]) for e in list(bad.values())[:3]), list(bad)[0][0] if bad else "str.cc")
    ctx.extra["texts"] = n
    return sites

def run(ctx):
    ctx.rule = "every access to and every release of a block of memory comes before its release"
    import time
    sites = set()
    ctx.extra = ctx.extra if ctx.extra is not None else {}
    import os
    for f in ([globals()[os.environ["ONLY"]]] if os.environ.get("ONLY") else []) or (programs, scanner, library, strings, anytext):
        t = time.time()
        sites |= f(ctx)
        if TIMES: print(f.__name__, "%.1f s" % (time.time() - t))
    ctx.extra["release sites reached"] = sorted(sites)
    if not os.environ.get("ONLY"): ctx.need(len(sites) >= 25, "release sites")
TIMES = False

def anytext(ctx):
    """C21's situations: texts, rows, tables of any length"""
    T = c21.Texts(ctx); sites = watch(T.I)
    T.W.bad = harm; T.W.tell = tell
    c21.scenarios(T)
    ctx.extra["situations with any text"] = T.n
    return sites
