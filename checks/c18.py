"""C18: conditional assembly."""
from .common import *
from . import front, words, scen
from .front import I32, I64, PT
EXPLANATION = ("The scanner automaton rebuilt from the flex tables and the code of its actions, followed from every kind of state conditional assembly can be in "
               "(selected text at any depth below any open conditional; skipped text with any open conditional inside). One step of every conditional "
               "directive is compared with the step of the nesting rules, so that any sequence follows by induction; the texts that change anything while "
               "skipping are read off the automaton. The statement node of an expression conditional is followed through the real expander with a symbolic condition.")
ASSUMPTIONS = ["flex generates from pasm.l what the build generates", "the stack of open conditionals is the global ifdef_stack"]
PROBES = ["O(instance_data,index)", "O(instance_data,stack_size)", "O(instance_data,item_size)", "O(instance_data,item_array)", "O(stack,instance)"] + ["E(%s)" % t for t in words.TOKENS]

class Cond:
    def __init__(self, ctx):
        self.ctx = ctx
        self.F = F = front.Front(ctx, PROBES)
        self.S, self.I = F.S, F.I
        self.size = None
        self.conds = F.scan.conds
    def inst(self, st):
        p = self.S.get(st, "ifdef_stack")
        return self.S.rd(st, p, "stack", "instance", PT)
    def state(self, cond, empty=False, full=None):
        """arbitrary open conditionals: a stack of any depth with any contents"""
        S, I = self.S, self.I
        st = self.F.state(cond)
        self.F.last_token(st, ".x")
        q = self.inst(st)
        self.item = S.rd(st, q, "instance_data", "item_size", I64)
        if not isinstance(self.item, int) or self.item not in (1, 4, 8): raise Broken("items of the stack of conditionals: %r" % (self.item,))
        if empty: return st, -1
        n = 1 << 20
        idx = fresh("depth", 64, 0, n - 2)
        size = fresh("capacity", 64, 1, n)
        st.assume(sub(size, idx), ((2, n),) if not full else ((1, 1),))
        o = I.alloc("conditionals", 'heap', scale(size, self.item), 'havoc')
        st.nonnull = st.nonnull | {o.id}
        for f, v, t in (("index", idx, I64), ("stack_size", size, I64), ("item_array", Ptr(o.id, 0), PT)): S.wr(st, q, "instance_data", f, v, t)
        return st, idx
    def ty(self): return {1: scen.I8, 4: I32, 8: I64}[self.item]
    def put(self, st, idx, v):
        q = self.inst(st); a = self.S.rd(st, q, "instance_data", "item_array", PT)
        self.I.store(st, Ptr(a.o, add(a.off, scale(idx, self.item))), v, self.ty())
    def look(self, st):
        q = self.inst(st)
        return self.S.rd(st, q, "instance_data", "index", I64), self.S.rd(st, q, "instance_data", "item_array", PT)
    def item_at(self, st, k):
        i, a = self.look(st)
        return self.I.load(st, Ptr(a.o, add(a.off, scale(k, self.item))), self.ty())
    def cond(self, st):
        v = self.S.get(st, "yy_start", I32)
        r = st.rset(v)
        if len(r) != 1 or r[0][0] != r[0][1]: return None
        return (r[0][0] - 1) // 2
    def step(self, st, text, cond, follow=b" "):
        """the scanner reads one text; follows the rules it tries -> [(state, token or None)]; None when the text is not one word"""
        r = self.F.top(cond, text.encode(), follow)
        if r is None: return None
        self.F.yytext(st, text)
        out = []; work = [(st, 0)]
        while work:
            s, k = work.pop()
            if k >= len(r): raise Broken("every rule for %r is rejected" % text)
            for kind, t, v in self.F.act(r[k], s):
                if kind == "reject": work.append((t, k + 1))
                else: out.append((t, v if kind == "token" else None))
        return out

def run(ctx):
    ctx.rule = ("selected text: a definition conditional opens a level and skips exactly when its name is (not) defined, an expression conditional opens a level and is a token, "
                "alternative and end belong to the innermost open conditional; skipped text: only conditional directives change anything, inner ones open and close levels, "
                "the alternative or end of the skipping conditional itself ends the skip; of an expression conditional exactly the selected branch is expanded")
    C = Cond(ctx); F = C.F
    T = lambda n: ctx.P(n)
    names = {v: k for k, v in C.conds.items()}
    # ---------------- what the directives push (the values are the implementation's own)
    def pushed(key, sts, idx, where):
        vals = set()
        for s, tok in sts:
            i, a = C.look(s)
            if not ctx.ob(key + "/opens one level", same_bits(s, i, add(idx, 1), 64), "depth goes from %r to %r" % (idx, i), where): return None
            v = C.item_at(s, add(idx, 1)); r = s.rset(v) if isinstance(v, (int, Lin)) else ()
            if not ctx.ob(key + "/kind", len(r) == 1 and r[0][0] == r[0][1], "the kind of the level is %r" % (v,), where): return None
            vals.add(r[0][0])
        if not ctx.ob(key + "/kind", len(vals) == 1, "the kind of the level depends on more than the directive: %s" % sorted(vals), where): return None
        return vals.pop()
    OPEN = [(".ifdef", True), (".ifndef", False)]
    NAMES = ["NAME", "a", "@x_1", "if.else"]
    D = set(); INI = 0; SKIP = set()
    below = []
    for shape in ("any", "full", "empty"):
        for d, positive in OPEN:
            for nm, blank in zip(NAMES, (" ", "\t", " \t ", "   ")):
                if shape != "any" and nm != "NAME": continue
                for defined in (True, False):
                    key = "%s %s, %s%s" % (d, "defined" if defined else "undefined", {"any": "inside any conditionals", "full": "stack at its capacity", "empty": "outermost"}[shape], "" if nm == "NAME" else " (%r)" % (blank + nm))
                    st, idx = C.state(INI, shape == "empty", shape == "full")
                    if shape != "empty": old = C.item_at(st, idx)
                    if defined:
                        o = C.I.alloc("symbol", 'heap', 256, 'havoc'); st.nonnull = st.nonnull | {o.id}
                        st.tags['lookup'] = Ptr(o.id, 0)
                    outs = C.step(st, d + blank + nm, INI)
                    if not ctx.ob(key, bool(outs), "%r is not read as one directive" % (d + blank + nm), "pasm.l"): continue
                    k = pushed(key, outs, idx, "pasm.l")
                    if k is not None: D.add(k)
                    for s, tok in outs:
                        looked = [e for e in s.events() if e[0] == 'lookup']
                        from engine.libc import cstr
                        got = [cstr(C.I, s, e[1]) for e in looked]
                        ctx.ob(key + "/name", got and all((g.decode() if isinstance(g, bytes) else g) == nm for g in got), "looks up %r" % got, "pasm.l")
                        ctx.ob(key + "/token", tok is None, "yields token %r" % (tok,), "pasm.l")
                        sel = defined == positive
                        c = C.cond(s)
                        ctx.ob(key + "/selection", c is not None and (c == INI) == sel, "continues in %s" % names.get(c, c), "pasm.l")
                        if not sel and c not in (None, INI): SKIP.add(c)
                        if shape != "empty": ctx.ob(key + "/outer levels kept", C.item_at(s, idx) == old or same_bits(s, C.item_at(s, idx), old, 8 * C.item), "the enclosing level changes", "pasm.l")
    if not ctx.ob("kinds of level", len(D) == 1 and len(SKIP) == 1, "definition conditionals open levels of kind %s and skip in scanner modes %s" % (sorted(D), sorted(SKIP)), "pasm.l"): return
    vD = D.pop(); skip = SKIP.pop()
    # ---------------- expression conditionals in selected text
    vals = set()
    for shape in ("any", "full", "empty"):
        key = ".if in selected text, " + shape
        st, idx = C.state(INI, shape == "empty", shape == "full")
        outs = C.step(st, ".if", INI)
        if not ctx.ob(key, bool(outs), "not read as one directive", "pasm.l"): continue
        k = pushed(key, outs, idx, "pasm.l")
        if k is not None: vals.add(k)
        for s, tok in outs:
            ctx.ob(key + "/token", tok == T("IF") and C.cond(s) == INI, "yields %r and continues in %s" % (tok, names.get(C.cond(s))), "pasm.l")
    if not ctx.ob("kind of .if", len(vals) == 1 and vD not in vals, "levels of .if have kinds %s, definition conditionals %s" % (sorted(vals), vD), "pasm.l"): return
    vI = vals.pop()
    # ---------------- conditionals inside skipped text
    vals = set()
    def scan_all(st, text):
        """read the text to its end, whatever words it falls into"""
        work = [(st, 0, ())]; done = []
        while work:
            s, at, toks = work.pop()
            if at >= len(text): done.append((s, toks)); continue
            c = C.cond(s)
            if c is None: raise Broken("scanner mode not known")
            ms = [(k, r) for k, r in F.scan.matches(c, (text[at:] + "\n").encode()) if k <= len(text) - at]
            if not ms: raise Broken("no rule for %r" % text[at:])
            pend = [(s, 0)]
            while pend:
                q, j = pend.pop()
                if j >= len(ms): raise Broken("every rule rejected")
                F.yytext(q, text[at:at + ms[j][0]])
                for kind, t, v in F.act(ms[j][1], q):
                    if kind == "reject": pend.append((t, j + 1))
                    else: work.append((t, at + ms[j][0], toks + ((v,) if kind == "token" else ())))
        return done
    for shape in ("any", "full"):
        for text in (".if", ".if 1", ".IF a", ".ifdef NAME", ".ifndef b", ".IFDEF\tx", ".if(1)"):
            for top in ("skipping", "inner"):
                if shape == "full" and text != ".if": continue
                if top == "inner" and not vals: continue
                key = "%s in skipped text%s%s" % (text.replace("\t", " "), "" if shape == "any" else ", stack at its capacity", "" if top == "skipping" else ", inside another")
                st, idx = C.state(skip, False, shape == "full")
                t0 = vD if top == "skipping" else min(vals)
                C.put(st, idx, t0)
                outs = scan_all(st, text)
                k = pushed(key, outs, idx, "pasm.l")
                if k is not None: vals.add(k)
                for s, toks in outs:
                    ctx.ob(key + "/still skipped", C.cond(s) == skip and not toks, "continues in %s with tokens %r" % (names.get(C.cond(s)), toks), "pasm.l")
                    ctx.ob(key + "/outer levels kept", same_bits(s, C.item_at(s, idx), t0, 8 * C.item), "the enclosing level becomes %r" % (C.item_at(s, idx),), "pasm.l")
    if not ctx.ob("kind of inner levels", len(vals) == 1 and vD not in vals, "conditionals inside skipped text open levels of kinds %s, definition conditionals %s" % (sorted(vals), vD), "pasm.l"): return
    vN = vals.pop()
    # ---------------- alternative and end
    def one(key, cond, top, text, want):
        """want: (token, next mode, change of depth)"""
        for empty in ([True] if top is None else [False]):
            st, idx = C.state(cond, empty)
            if top is not None: C.put(st, idx, top)
            outs = C.step(st, text, cond, b" \n;")
            if not ctx.ob(key, bool(outs), "%r is not read as one directive" % text, "pasm.l"): return
            for s, tok in outs:
                i, a = C.look(s); c = C.cond(s)
                ctx.ob(key, tok == want[0] and c == want[1] and same_bits(s, i, add(idx, want[2]), 64),
                       "yields token %r, continues in %s, changes the depth from %r to %r" % (tok, names.get(c, c), idx, i), "pasm.l")
                if top is not None and want[2] == 0: ctx.ob(key + "/level kept", same_bits(s, C.item_at(s, idx), top, 8 * C.item), "the level becomes %r" % (C.item_at(s, idx),), "pasm.l")
    for case in (str.lower, str.upper):
        e, n = case(".else"), case(".endif")
        one(e + " without conditional", INI, None, e, (T("ELSE"), INI, 0))
        one(n + " without conditional", INI, None, n, (T("ENDIF"), INI, 0))
        one(e + " of an expression conditional", INI, vI, e, (T("ELSE"), INI, 0))
        one(n + " of an expression conditional", INI, vI, n, (T("ENDIF"), INI, -1))
        one(e + " of a selected definition conditional", INI, vD, e, (None, skip, 0))
        one(n + " of a selected definition conditional", INI, vD, n, (None, INI, -1))
        one(e + " of the skipping conditional", skip, vD, e, (None, INI, 0))
        one(n + " of the skipping conditional", skip, vD, n, (None, INI, -1))
        one(e + " inside skipped text", skip, vN, e, (None, skip, 0))
        one(n + " inside skipped text", skip, vN, n, (None, skip, -1))
    skipped(ctx, C, F, skip, vD, vN, names)
    branches(ctx, C)

def skipped(ctx, C, F, skip, vD, vN, names):
    """which texts have an effect in skipped text"""
    sc = F.scan
    rules = set()
    seen = {sc.start(skip)}; work = [sc.start(skip)]
    while work:
        s = work.pop()
        rules |= {r for r in sc.accepts(s) if r != sc.eob}
        for c in sc.classes():
            t = sc.step(s, c)
            if t is not None and t not in seen: seen.add(t); work.append(t)
    rules.discard(sc.eof_rule(skip))
    cache = {}
    def effect(rule, cond, tops):
        """does the action of the rule change anything in skipped text, produce a token or leave for another mode?"""
        if (rule, cond) in cache: return cache[(rule, cond)]
        r = None
        for top in tops:
            st, idx = C.state(cond); C.put(st, idx, top)
            F.yytext(st, ".xy")
            for kind, s, v in F.act(rule, st):
                i, a = C.look(s)
                if kind == "token" or not same_bits(s, i, idx, 64) or not same_bits(s, C.item_at(s, idx), top, 8 * C.item): r = 'acts'
                elif C.cond(s) == 0: r = 'acts' if r != 'acts' else r
                elif C.cond(s) != cond and r is None: r = ('mode', C.cond(s))
        cache[(rule, cond)] = r
        return r
    acts = {r for r in rules if r in F.lex.cases and effect(r, skip, (vD, vN)) == 'acts'}
    comments = {r: effect(r, skip, (vD, vN))[1] for r in rules if r in F.lex.cases and isinstance(effect(r, skip, (vD, vN)), tuple)}
    def first(acc):
        a = [r for r in acc if r in F.lex.cases]
        return a[0] if a else None
    low = lambda ws: sorted({w.lower().decode('latin1') for w in ws})
    ws = sc.words(skip, lambda acc: first(acc) in acts)
    ctx.ob("directives that act in skipped text", ws is not None and low(ws) == [".else", ".endif", ".if"],
           "exactly .if, .else and .endif should; found %s" % (low(ws)[:12] if ws is not None else "unboundedly many texts"), "pasm.l")
    q = lambda s: first(sc.accepts(s)) if s is not None else None
    quiet = lambda r: r is not None and r not in acts and r not in comments
    any_ = [c for c in sc.classes()]
    # every character is skipped by some rule
    miss = [c for c in any_ if q(sc.step(sc.start(skip), c)) is None]
    ctx.ob("every character in skipped text is read", not miss, "no rule for characters %r" % bytes(miss[:5]), "pasm.l")
    def closed(key, lead, inner, what):
        """lead, then any number of inner characters: always one quiet text"""
        s = sc.start(skip)
        for b in lead:
            s = sc.step(s, b)
            if s is None: ctx.ob(key, False, "%r is not read as a whole" % lead, "pasm.l"); return
        seen = {s}; work = [s]; bad = None
        while work:
            t = work.pop()
            if not quiet(q(t)): bad = "%s may be read by a rule that acts (rule %r)" % (what, q(t)); break
            for c in inner:
                u = sc.step(t, c)
                if u is None: bad = "%s ends before character %r" % (what, chr(c)); break
                if u not in seen: seen.add(u); work.append(u)
            if bad: break
        ctx.ob(key, bad is None, bad or "", "pasm.l")
    full = range(1, 256)
    line = [c for c in full if c != 10]
    closed("line comment ; in skipped text", b";", line, "a comment")
    closed("line comment // in skipped text", b"//", line, "a comment")
    namec = [c for c in full if chr(c).isalnum() and c < 128 or c in b"_."]
    for l in b"aZ_": closed("name in skipped text (%s...)" % chr(l), bytes([l]), namec, "a name")
    # strings
    def string():
        s = sc.step(sc.start(skip), ord('"'))
        body = {s}; work = [s]
        while work:
            t = work.pop()
            for c in full:
                if c in b'"\\\n': continue
                u = sc.step(t, c) if t is not None else None
                if u is None: return "a string ends before character %r" % chr(c)
                if u not in body: body.add(u); work.append(u)
            e = sc.step(t, ord('\\'))
            for c in b"'\"?\\abfnrtv":
                u = sc.step(e, c) if e is not None else None
                if u is None: return "a string ends at \\%s" % chr(c)
                if u not in body: body.add(u); work.append(u)
            e = sc.step(t, ord('"'))
            if not quiet(q(e)): return "the closing quote does not end the string"
        return None
    m = string(); ctx.ob("string in skipped text", m is None, m or "", "pasm.l")
    def quoted(esc):
        for c in line:
            s = sc.start(skip)
            for b in (b"'\\" if esc else b"'") + bytes([c]) + b"'":
                s = sc.step(s, b)
                if s is None: return "quoted character %r is not read as a whole" % chr(c)
            if not quiet(q(s)): return "quoted character %r is read by a rule that acts" % chr(c)
        return None
    for esc in (False, True):
        m = quoted(esc); ctx.ob("quoted %scharacter in skipped text" % ("escaped " if esc else ""), m is None, m or "", "pasm.l")
    # block comments: a mode of its own that only its end leaves, or one text
    r = q(sc.run(skip, b"/*")[-1]) if len(sc.run(skip, b"/*")) == 3 else None
    m = None
    if r is None or quiet(r) or r in acts: m = "the start of a block comment is not told from other text"
    else:
        mode = comments[r]
        cr = {}
        seen = {sc.start(mode)}; work = [sc.start(mode)]; rr = set()
        while work:
            s = work.pop()
            if first(sc.accepts(s)) is not None: rr.add(first(sc.accepts(s)))
            for c in sc.classes():
                t = sc.step(s, c)
                if t is not None and t not in seen: seen.add(t); work.append(t)
        miss = [c for c in any_ if first(sc.accepts(sc.step(sc.start(mode), c)) if sc.step(sc.start(mode), c) is not None else []) is None]
        if miss: m = "characters %r inside a block comment have no rule" % bytes(miss[:5])
        eff = {r: effect(r, mode, (vD, vN)) for r in rr if r != sc.eof_rule(mode)}
        if any(e == 'acts' for e in eff.values()): m = "text inside a block comment acts"
        leave = {r for r, e in eff.items() if isinstance(e, tuple)}
        back = {eff[r][1] for r in leave}
        if back != {skip}: m = "a block comment in skipped text ends in mode %s" % sorted(names.get(x, x) for x in back)
        w = sc.words(mode, lambda acc: first(acc) in leave)
        if w != [b"*/"]: m = "a block comment in skipped text ends at %r" % (w,)
        ws2 = sc.words(skip, lambda acc: first(acc) in comments)
        if ws2 != [b"/*"]: m = "texts %r start a block comment" % (ws2,)
    ctx.ob("block comment in skipped text", m is None, m or "", "pasm.l")
    # comments in selected text hold no directives either
    ini = 0
    def ifs(acc): 
        a = first(acc)
        return a is not None and a in D0
    D0 = set()
    for w in (b".if", b".else", b".endif", b".ifdef x", b".ifndef x"):
        ms = sc.matches(ini, w + b" ")
        if ms: D0.add(ms[0][1])
    for lead in (b";", b"//"):
        s = sc.run(ini, lead)[-1] if len(sc.run(ini, lead)) == len(lead) + 1 else None
        seen = {s}; work = [s]; m = None
        while work and m is None:
            t = work.pop()
            if t is None or first(sc.accepts(t)) in D0: m = "a comment is not one text"; break
            for c in line:
                u = sc.step(t, c)
                if u is None: m = "a comment ends before %r" % chr(c); break
                if u not in seen: seen.add(u); work.append(u)
        ctx.ob("comment %s in selected text" % lead.decode(), m is None, m or "", "pasm.l")
    ctx.extra["scanner_rules_in_skipped_text"] = len(rules)

def branches(ctx, C):
    """of an expression conditional exactly the selected branch is expanded"""
    S, I = C.S, C.I
    real = ctx.fn("expand_node")
    for n in (2, 3):
        st = S.start()
        kids = []
        for k in range(n):
            r = S.one("constant_node", [100 + k, 0], st); st = r[0]; kids.append(r[1])
        cases = S.call("operator_node", [ctx.P("IF"), n] + kids, st)
        for st, node in cases:
            v = fresh("condition", 32, -(1 << 31), (1 << 31) - 1)
            ids = {k.o: i for i, k in enumerate(kids)}
            def child(I, s, a, inst):
                if isinstance(a[0], Ptr) and a[0].o in ids:
                    i = ids[a[0].o]
                    s.event('expand', i)
                    return v if i == 0 else fresh("result", 32)
                return I.exec(real, a, s, inst)
            I.models["expand_node"] = child
            S.set(st, "final_pass", fresh("final_pass", 32, 0, 1))
            del I.stack[:]
            I.MAXSTEPS = I.steps + 4000000
            for s, r in I.exec(real, [node], st):
                ev = [e[1] for e in s.events() if e[0] == 'expand']
                rv = s.rset(v)
                zero, non = not inter(rv, ((-INF, -1), (1, INF))), not inter(rv, ((0, 0),))
                want = [0, 1] if non else [0] + ([2] if n == 3 else []) if zero else None
                ctx.ob(".if with%s alternative" % ("" if n == 3 else "out"), want is not None and ev == want,
                       "condition in %s: expands operands %r" % (rv, ev), "expand.cc")
            I.models.pop("expand_node", None)
