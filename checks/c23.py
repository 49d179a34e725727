"""C23: stray closing directives."""
from .common import *
from .common import _ai
from . import front, words, scen, graph
from .front import I32, I64, PT
from engine import libc
from engine.dom import sub
EXPLANATION = ("Every scanner action in every mode the scanner can be in, the end-of-file action, and the expander's section and macro operations are followed by the "
               "abstract interpreter with every stack of the assembler empty (never used, or used and emptied); every access to the memory of a stack "
               "and every dereference on the way must be inside it. The parser tables say what happens to a closing directive where nothing is open.")
ASSUMPTIONS = ["in skipped text at least the skipping conditional is on its stack (established by C18)"]
CLOSERS = ["ENDMACRO", "NEXT", "WEND", "UNTIL", "ENDDO", "ELSE", "ENDIF", "TO", "DOWNTO", "STEP"]
FIELDS = ["index", "stack_size", "item_size", "item_array"]
PROBES = ["O(instance_data,%s)" % f for f in FIELDS] + ["O(stack,%s)" % f for f in ("instance", "pop", "top", "item_at", "push")] + ["E(%s)" % t for t in words.TOKENS]

class Watch:
    """reports accesses outside the watched arrays and null dereferences"""
    def __init__(self, ctx, F):
        self.ctx, self.F, self.S, self.I = ctx, F, F.S, F.I
        self.arrays = {}
        I = self.I
        def access(I, st, p, size, inst, what):
            n = self.arrays.get(p.o)
            if n is None: return
            lo, hi = st.rng(p.off)[0], st.rng(add(p.off, size))[1]
            if lo < 0 or hi > n: st.event('outside', I.where(inst), what, "offset %s of a stack of %d bytes" % (st.rset(p.off), n))
        I.on_access = access
    def empty(self, st, how):
        """make every stack of the assembler empty; how: 'new' (no memory yet) or 'used'"""
        S, I = self.S, self.I
        n = 0
        for name in self.names:
            p = S.get(st, name)
            if not isinstance(p, Ptr) or p.o is None: continue
            q = S.rd(st, p, "stack", "instance", PT)
            size = S.rd(st, q, "instance_data", "item_size", I64)
            if not isinstance(size, int): raise Broken("item size of stack %s" % name)
            S.wr(st, q, "instance_data", "index", -1, I64)
            if how == 'new':
                S.wr(st, q, "instance_data", "stack_size", 0, I64); S.wr(st, q, "instance_data", "item_array", NULL, PT)
            else:
                o = I.alloc("items of " + name, 'heap', 25 * size, 'havoc'); st.nonnull = st.nonnull | {o.id}
                self.arrays[o.id] = 25 * size
                S.wr(st, q, "instance_data", "stack_size", 25, I64); S.wr(st, q, "instance_data", "item_array", Ptr(o.id, 0), PT)
            n += 1
        return n
    def call(self, key, fn, args, st, where):
        """a call that may leave the known part of the program after a bad access"""
        seen = []; orig = _ai.State.event
        def event(s, *e):
            if e[0] in ('outside', 'nullderef', 'wild-load', 'wild-store'): seen.append(e)
            orig(s, *e)
        _ai.State.event = event
        try: return self.S.call(fn, args, st)
        except _ai.AnalysisError:
            if not seen: raise
            self.ctx.ob(key, False, "%s" % " ".join(map(str, seen[0])), seen[0][1]); return []
        finally: _ai.State.event = orig
    def judge(self, key, st, mark, where):
        bad = [e for e in scen.ev_since(st, mark) if e[0] in ('outside', 'nullderef', 'wild-load', 'wild-store')]
        self.ctx.ob(key, not bad, "; ".join(sorted({"%s at %s" % (" ".join(map(str, e[2:])) or e[0], e[1]) for e in bad}))[:300], bad[0][1] if bad else where)

def stack_globals(ctx):
    """globals whose value is handed to / taken from the stack functions: those create_stack is stored to"""
    out = {}
    create = ctx.fn("create_stack")
    from engine.llvm import Reg, FuncRef
    for f in ctx.mod.functions.values():
        if f.decl: continue
        made = {}
        for b in f.blocks:
            for x in b.insts:
                if x.op in ('call', 'invoke') and isinstance(x.x, FuncRef) and x.x.f is create: made[x.id] = x.ops[0] if x.ops and isinstance(x.ops[0], int) else 16
                if x.op == 'store' and isinstance(x.ops[0], Reg) and x.ops[0].id in made:
                    g = graph.address(x.ops[1])
                    if g is not None: out[g.base if hasattr(g, 'base') else g.name] = made[x.ops[0].id]
    return out

def run(ctx):
    ctx.rule = "with every stack empty: no access outside a stack's memory and no null dereference in any scanner action, section end or macro operation; closing directives with nothing open are syntax errors or reported"
    F = front.Front(ctx, PROBES); S, I = F.S, F.I
    libc.install_numbers(I)
    W = Watch(ctx, F)
    W.sizes = stack_globals(ctx)
    W.names = sorted(W.sizes)
    ctx.need(len(W.names), "stacks of the assembler")
    ctx.extra["stacks"] = W.names
    def ready():
        """a state in which every stack exists"""
        st = F.state()
        for n in W.names:
            p = S.get(st, n)
            if isinstance(p, Ptr) and p.o is None:
                st, q = S.one("create_stack", [W.sizes.get(n, 16)], st)
                S.set(st, n, q)
        return st
    ini = F.scan.conds["INITIAL"]
    skip = skip_modes(ctx, F, ready)
    ctx.need(len(skip), "scanner mode of skipped text")
    rules = set(); n = 0
    for how in ('new', 'used'):
        for cname, cond in sorted(F.scan.conds.items()):
            live = rules_of(F, cond) | {F.scan.eof_rule(cond)}
            for rule in sorted(live):
                if rule not in F.lex.cases: continue
                eof = rule == F.scan.eof_rule(cond)
                if cond in skip and not eof: continue
                for lt in (None, 'eol', ".mac"):
                    st = ready(); W.empty(st, how)
                    S.set(st, "yy_start", 1 + 2 * cond); S.set(st, "yyout", S.console)
                    F.last_token(st, lt)
                    for v, lo, hi in (("do_count", 0, 1 << 20), ("in_macro_definition", -5, 1 << 20)): F.anyvar(st, v, lo, hi)
                    text = sample(F, cond, rule)
                    F.yytext(st, text)
                    if eof:
                        arr = I.alloc("buffers", 'heap', 64, 'undef'); st.nonnull = st.nonnull | {arr.id}
                        st.wcells(arr.id)[0] = (8, NULL)
                        S.set(st, "yy_buffer_stack", Ptr(arr.id, 0)); S.set(st, "yy_buffer_stack_top", 0)
                    mark = st.ev; n += 1
                    key = "%s with empty stacks (%s), mode %s" % ("end of file" if eof else "scanner rule for %r" % text.lower().replace("\n", "<nl>"), how, cname)
                    for kind, s, v in F.act(rule, st): W.judge(key, s, mark, "pasm.l")
                    I.exits.clear()
    ctx.need(n, "scanner actions")
    # ------------------------------------------------------------ the expander
    for how in ('new', 'used'):
        for fn, args in (("pop_macro_params", []),):
            if not any(f.base == fn for f in ctx.mod.functions.values()): continue
            for missing in (False, True):
                st = ready(); W.empty(st, how)
                if missing: S.set(st, "macro_params_stack", NULL) if "macro_params_stack" in W.names else None
                mark = st.ev; n0 = len(I.exits)
                for s, r in W.call("%s with no call in progress (%s)" % (fn, how), fn, args, st, "sym.cc"): W.judge("%s with no call in progress (%s)" % (fn, how), s, mark, "sym.cc")
                for e in I.exits[n0:]: W.judge("%s with no call in progress (%s)" % (fn, how), e[0], mark, "sym.cc")
                I.exits.clear()
        # a section end without a section
        st = ready(); W.empty(st, how)
        S.set(st, "current_scope", NULL); n0 = fresh("errors", 32, 0, 1 << 20); S.set(st, "error_count", n0)
        st, node = S.one("operator_node", [ctx.P("ENDSECTION"), 0], st)
        mark = st.ev
        outs = W.call("section end without section (%s)" % how, "expand_node", [node], st, "expand.cc")
        if not outs and not I.exits and not any(not o[0] for o in ctx.obs.values()): raise Broken("no outcome of a section end without section")
        for s, r in outs:
            W.judge("section end without section (%s)" % how, s, mark, "expand.cc")
            ctx.ob("section end without section (%s)/reported" % how, s.rng(sub(S.get(s, "error_count", I32), n0))[0] > 0, "no error is reported", "expand.cc")
        for e in I.exits: W.judge("section end without section (%s)" % how, e[0], mark, "expand.cc")
        I.exits.clear()
        # the symbols that changed, when none did
        if any(f.base == "dump_changed_symbols" for f in ctx.mod.functions.values()):
            st = ready(); W.empty(st, how); mark = st.ev
            for s, r in S.call("dump_changed_symbols", [S.console], st): W.judge("list of changed symbols, none changed (%s)" % how, s, mark, "sym.cc")
    # ------------------------------------------------------------- the grammar
    T = lambda t: ctx.P(t)
    before = {"at the start": [], "after an empty line": [T("EOL")], "after an instruction": [T("OPCODE"), T("EOL")], "after two": [T("OPCODE"), T("EOL"), T("OPCODE"), T("EOL")],
              "after a closed block": [T("IF"), T("INTEGER"), T("EOL"), T("OPCODE"), T("EOL"), T("ENDIF"), T("EOL")]}
    for where, toks in before.items():
        for c in CLOSERS:
            stk = [0]
            if not all(feed(F, stk, t) for t in toks): raise Broken("statement rejected by the parser: " + where)
            ctx.ob("%s %s with nothing open" % (c, where), not feed(F, stk, T(c)), "is not a syntax error", "pasm.y")
    ctx.extra["scanner_actions"] = n

def skip_modes(ctx, F, ready):
    """modes only skipped text leads to: entered with a level on the stack of conditionals, which C18 shows to stay"""
    def mode(s):
        r = s.rset(F.S.get(s, "yy_start", I32))
        if len(r) != 1 or r[0][0] != r[0][1]: raise Broken("scanner mode not known")
        return (r[0][0] - 1) // 2
    ini = F.scan.conds["INITIAL"]
    st = ready(); F.last_token(st, ".x")
    r = F.top(ini, b".ifdef x", b" ")
    if not r: raise Broken("definition conditional not found in the scanner")
    F.yytext(st, ".ifdef x")
    inside = {mode(s): s for k, s, v in F.act(r[0], st)}
    inside.pop(ini, None)
    work = list(inside)
    while work:
        m = work.pop()
        for rule in sorted(rules_of(F, m)):
            if rule not in F.lex.cases: continue
            s = inside[m].fork(); F.S.set(s, "yy_start", 1 + 2 * m); F.S.set(s, "yyout", F.S.console)
            F.yytext(s, sample(F, m, rule))
            for k, t, v in F.act(rule, s):
                c = mode(t)
                if c != ini and c not in inside: inside[c] = t; work.append(c)
    # a mode selected text leads to as well is checked with empty stacks
    for rule in sorted(rules_of(F, ini)):
        if rule not in F.lex.cases: continue
        text = sample(F, ini, rule)
        if text.lower().startswith((".if", ".else", ".endif")): continue
        s = ready(); F.last_token(s, ".x"); F.yytext(s, text); F.S.set(s, "yyout", F.S.console)
        for k, t, v in F.act(rule, s):
            i = F.S.get(t, "yy_start", I32)
            if isinstance(i, int): inside.pop((i - 1) // 2, None)
    F.I.exits.clear()
    return set(inside)
def rules_of(F, cond):
    sc = F.scan; rules = set(); seen = {sc.start(cond)}; work = [sc.start(cond)]
    while work:
        s = work.pop()
        rules |= {r for r in sc.accepts(s) if r != sc.eob}
        for c in sc.classes():
            t = sc.step(s, c)
            if t is not None and t not in seen: seen.add(t); work.append(t)
    return rules
_samples = {}
def sample(F, cond, rule):
    """a shortest text the rule matches"""
    k = (cond, rule)
    if k in _samples: return _samples[k]
    sc = F.scan
    seen = {sc.start(cond): b""}; work = [sc.start(cond)]; r = b""
    order = sorted(sc.classes(), key=lambda c: (not chr(c).isalnum(), c < 33, c))
    while work:
        s = work.pop(0)
        if rule in sc.accepts(s): r = seen[s]; break
        for c in order:
            t = sc.step(s, c)
            if t is not None and t not in seen: seen[t] = seen[s] + bytes([c]); work.append(t)
    _samples[k] = r.decode('latin1')
    return _samples[k]
def feed(F, stk, tok):
    """-> True when the token is shifted, False when it is a syntax error"""
    LR = F.lr
    for _ in range(400):
        d = LR.default(stk[-1])
        a = ('reduce', d) if d is not None else LR.action(stk[-1], tok)
        if a[0] == 'shift': stk.append(a[1]); return True
        if a[0] != 'reduce': return False
        n = LR.r2[a[1]]
        if n: del stk[-n:]
        stk.append(LR.goto(stk[-1], a[1]))
    raise Broken("parser does not advance")
