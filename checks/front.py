"""The scanner and the parser: their automata from the tables, the code of their actions
followed by the interpreter one action at a time."""
import os
from .common import *
from .common import _ai
from . import scen
from engine import dom, tables
from engine.llvm import Reg, Ty
from engine.ai import Path, Frame
I8, I32, I64, PT = scen.I8, scen.I32, scen.I64, scen.PT

class Actions:
    """the action switch of a generated function"""
    def __init__(self, fn):
        self.fn = fn
        best = None
        for b in fn.blocks:
            x = b.insts[-1]
            if x.op == 'switch' and (best is None or len(x.x[1]) > len(best[1].x[1])): best = (b, x)
        if best is None or len(best[1].x[1]) < 20: raise Broken("no action switch in " + fn.base)
        self.block, self.sw = best
        self.cases = {v: b for v, b in self.sw.x[1]}
        # blocks reachable without entering an action
        seen = {0}; work = [fn.blocks[0]]
        while work:
            b = work.pop()
            if b is self.block: continue
            for s in b.succ:
                if s.idx not in seen: seen.add(s.idx); work.append(s)
        self.pre = seen
    def after_default(self):
        """blocks reachable from the default branch of the switch"""
        seen = set(); work = list(self.sw.x[0].succ)
        while work:
            b = work.pop()
            if b.idx in seen: continue
            seen.add(b.idx)
            if b is not self.block: work.extend(b.succ)
        return seen
    def region(self, blk, stop):
        seen = {blk.idx}; work = [blk]
        while work:
            b = work.pop()
            for s in b.succ:
                if s.idx not in seen and s.idx not in stop: seen.add(s.idx); work.append(s)
        return seen
    def live_in(self, blk, stop):
        reg = self.region(blk, stop); defs = set(); uses = {}
        for i in reg:
            for x in self.fn.blocks[i].insts: defs.add(x.id)
        for i in reg:
            for x in self.fn.blocks[i].insts:
                if x.op == 'phi':
                    vs = [v for k, v in x.x.items() if k in reg]
                else: vs = x.ops
                for v in vs:
                    if isinstance(v, Reg) and v.id not in defs: uses[v.id] = True
        by = {x.id: x for b in self.fn.blocks for x in b.insts}
        return [by[i] for i in uses if i in by]
    def run(self, I, blk, regs, st, stop):
        """-> (returned [(state, value)], stopped [(state, block index, regs)])"""
        fn = self.fn
        I.analysed.add(fn.name)
        fr = Frame(); fr.fn = fn; fr.rets = []; fr.allocas = []; fr.vargs = []
        I.stack.append(fn)
        stopped = []
        work = [Path(st, dict(regs), blk, None)]
        while work:
            p = work.pop()
            if p.bb.idx in stop:
                stopped.append((p.st, p.bb.idx, p.regs)); continue
            if p.bb.idx in fn.loops and not (fn.loops[p.bb.idx] & self.pre):
                work.extend(I.do_loop(fr, p, p.bb.idx))
            else:
                work.extend(I.block(fr, p))
        I.stack.pop()
        return fr.rets, stopped

class Front:
    def __init__(self, ctx, probes=()):
        self.ctx = ctx
        self.S = S = scen.Scn(ctx, sorted(set(probes)))
        self.I = S.I
        d = ctx.build.dir
        try:
            self.scan = tables.Scanner(ctx.mod, open(os.path.join(d, "pasm.flex.cc"), errors="replace").read())
            self.lr = tables.Parser(ctx.mod, open(os.path.join(d, "pasm.tab.cc"), errors="replace").read())
        except (tables.TableError, AttributeError) as e: raise Broken("generated tables: %s" % e)
        self.lex = Actions(ctx.fn("yylex")); self.par = Actions(ctx.fn("yyparse"))
        I = self.I
        I.MAXSTEPS = 10 ** 9
        m = I.models
        def listed(I, st, a, inst): st.event('list', a[0], I.where(inst))
        m["generate_list_node"] = listed
        def unput(I, st, a, inst): st.event('unput', a[0])
        for n in ("yyunput",): m[n] = unput
        def popbuf(I, st, a, inst): st.event('popbuf')
        m["yypop_buffer_state"] = popbuf
        def lookup(I, st, a, inst):
            st.event('lookup', a[0])
            f = st.tags.get('lookup')
            return f if f is not None else NULL
        m["look_up_symbol"] = lookup
        # where an action of the scanner leads when it produces no token
        fn = self.lex.fn
        outer = [h for h in fn.loops if self.lex.block.idx in fn.loops[h]]
        if not outer: raise Broken("scan loop not found in yylex")
        self.scan_next = max(outer, key=lambda h: len(fn.loops[h]))
        self.default = {}
    # ------------------------------------------------------------- scanner
    def state(self, cond=0):
        st = self.S.start()
        S = self.S
        S.set(st, "yy_start", 1 + 2 * cond)
        self.anyvar(st, "Debug_Token", 0, 1)
        self.anyvar(st, "final_pass", 0, 1)
        return st
    def anyvar(self, st, name, lo, hi):
        if self.ctx.mod.gv(name) is None: return None
        v = fresh(name, 32, lo, hi)
        self.S.set(st, name, v); return v
    def last_token(self, st, kind):
        """kind: None (start of a pass), 'eol', or a text"""
        S = self.S
        if self.ctx.mod.gv("last_token") is None: raise Broken("scanner variable last_token not found")
        S.set(st, "last_token", NULL if kind is None else S.text(st, "\n" if kind == 'eol' else kind))
    def yytext(self, st, text):
        """text: bytes/str constant or a list of byte sets / ints"""
        S = self.S
        if isinstance(text, bytes): text = text.decode('latin1')
        if isinstance(text, str): p = S.text(st, text, "yytext"); n = len(text)
        else:
            n = len(text)
            o = self.I.alloc("yytext", 'heap', n + 1, 'undef')
            st.nonnull = st.nonnull | {o.id}
            p = Ptr(o.id, 0)
            c = st.wcells(o.id)
            vals = []
            for k, x in enumerate(text):
                if isinstance(x, int): v = x if x < 128 else x - 256
                else:
                    v = fresh("ch%d" % k, 8, -128, 127)
                    st.assume(v, x)
                c[k] = (1, v); vals.append(v)
            c[n] = (1, 0)
            st.slen[(o.id, 0)] = n
            self.chars = vals
        S.set(st, "yytext", p)
        if self.ctx.mod.gv("yyleng"): S.set(st, "yyleng", n)
        return p
    def act(self, rule, st):
        """run one scanner action -> [(kind, state, token)] kind: token | next | reject"""
        A = self.lex
        blk = A.cases.get(rule)
        if blk is None: raise Broken("no action for scanner rule %d" % rule)
        regs = {}
        for x in A.live_in(blk, A.pre):
            if x.op == 'alloca':
                o = self.I.alloc("yylex.local", 'alloca', x.x, 'undef'); regs[x.id] = Ptr(o.id, 0)
            elif x.op == 'phi' and x.ty.kind == 'p': regs[x.id] = self.S.get(st, "yytext")
            else: regs[x.id] = fresh("live", 32) if x.ty.kind == 'i' else UNDEF
        rets, stops = A.run(self.I, blk, regs, st, A.pre)
        out = [("token", s, v) for s, v in rets]
        for s, b, r in stops: out.append(("next" if b == self.scan_next else "reject", s, None))
        return out
    def top(self, cond, text, follow=b"\n"):
        """the rules the scanner tries on text when a character of follow comes next, best first;
        None unless exactly the whole text is matched"""
        res = None
        for c in follow:
            m = self.scan.matches(cond, text + bytes([c]))
            m = [r for k, r in m if k == len(text)] if m and m[0][0] == len(text) else None
            if m is None: return None
            if res is None: res = m
            elif res != m: return None
        return res
    # -------------------------------------------------------------- parser
    BUILD = ("opcode_node", "operator_node", "constant_node", "id_node", "label_node", "string_node", "data_node",
             "macro_id_node", "macro_expand_node", "print_state_node")
    def build_terms(self):
        """node constructors become terms"""
        I = self.I
        def maker(nm):
            def f(I, st, a, inst):
                o = I.alloc("node", 'heap', 64, 'undef')
                st.nonnull = st.nonnull | {o.id}
                args = []
                for x in a:
                    if isinstance(x, Ptr) and x.o is not None and ('term', x.o) in st.tags: args.append(st.tags[('term', x.o)])
                    elif isinstance(x, Ptr) and x.o is not None:
                        from engine.libc import cstr
                        s = cstr(I, st, x)
                        args.append(('text', s) if s is not None else x)
                    else: args.append(x)
                fnm = self.ctx.mod.fn(nm)
                np = fnm.nparams
                if len(args) > np and np and isinstance(args[np - 1], int): args = args[:np + args[np - 1]]
                st.tags[('term', o.id)] = (nm,) + tuple(args)
                return Ptr(o.id, 0)
            return f
        for nm in self.BUILD:
            self.ctx.fn(nm)
            I.models[nm] = maker(nm)
        def expand(I, st, a, inst):
            st.event('expand', st.tags.get(('term', a[0].o), a[0]) if isinstance(a[0], Ptr) else a[0])
        self.ctx.fn("expand_node")
        I.models["expand_node"] = expand
    def reduce(self, rule, vals, st):
        """run the action of a grammar rule on the values of its right-hand side -> [(state, value)]"""
        A = self.par
        stop = A.after_default() | A.pre
        n = len(vals)
        arr = self.I.alloc("yyvs", 'heap', 8 * (n + 1), 'undef')
        c = st.wcells(arr.id)
        for k, v in enumerate(vals):
            if v is not None: c[8 * (k + 1)] = (8 if isinstance(v, Ptr) else 4, v)
        vsp = Ptr(arr.id, 8 * n)
        yv = self.I.alloc("yyval", 'alloca', 8, 'undef')
        if n and vals[0] is not None: st.wcells(yv.id)[0] = (8 if isinstance(vals[0], Ptr) else 4, vals[0])
        blk = A.cases.get(rule)
        if blk is None: return [(st, vals[0] if n else None)]
        regs = {}
        for x in A.live_in(blk, stop):
            if x.op == 'alloca': regs[x.id] = Ptr(yv.id, 0)
            elif x.ty.kind == 'p': regs[x.id] = vsp
            else: regs[x.id] = fresh("live", 32)
        rets, stops = A.run(self.I, blk, regs, st, stop)
        out = []
        for s, b, r in stops:
            e = s.cells(yv.id).get(0)
            out.append((s, e[1] if e else None))
        if rets: st.event('parser returns')
        return out
    def parse(self, toks, stack, st, limit=4000):
        """feed tokens [(number, value)] to the parser from stack [(state, value)].
        -> [(stack, state, consumed, status)], status: 'done' (all consumed), 'error', 'below' (would reduce below the given stack)"""
        LR = self.lr
        out = []
        work = [(list(stack), st, 0)]
        n0 = len(stack)
        steps = 0
        while work:
            stk, s, i = work.pop()
            while True:
                steps += 1
                if steps > limit: raise Broken("parser simulation does not end")
                top = stk[-1][0]
                d = LR.default(top)
                if d is None and i >= len(toks):
                    out.append((stk, s, i, 'done')); break
                a = ('reduce', d) if d is not None else LR.action(top, toks[i][0])
                if a[0] == 'error': out.append((stk, s, i, 'error')); break
                if a[0] == 'accept': out.append((stk, s, i, 'accept')); break
                if a[0] == 'shift':
                    stk = stk + [(a[1], toks[i][1])]; i += 1; continue
                r = a[1]; n = LR.r2[r]
                if len(stk) - n < n0: out.append((stk, s, i, ('below', r))); break
                vals = [v for _, v in stk[len(stk) - n:]] if n else []
                res = self.reduce(r, vals, s)
                base = stk[:len(stk) - n]
                g = LR.goto(base[-1][0], r)
                if not res: break
                for s2, v2 in res[1:]: work.append((base + [(g, v2)], s2, i))
                s = res[0][0]; stk = base + [(g, res[0][1])]
        return out
