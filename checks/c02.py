"""C02: spelling selects the instruction, directive, operand form and number base."""
from .common import *
from .common import _ai, _dom
from . import isa, scen, words, front
from engine import libc
from .front import I8, I32, PT
EXPLANATION = ("The scanner automaton is rebuilt from the flex tables in the program's IR and the LALR automaton from the bison tables. For every mnemonic, "
               "keyword, number notation and quoted character the longest-match rule is read off the automaton (for every letter case and following "
               "character) and the code of its action is followed by the abstract interpreter from an arbitrary scanner state; for every operand syntax and "
               "statement form the shift and reduce moves are read off the tables and the reduce actions are followed with the node constructors as terms.")
ASSUMPTIONS = ["the enumerator of a token or mnemonic is taken by name from the generated headers", "flex and bison generate from the grammar files what the build generates",
               "what the node terms mean to the expander is the subject of the other properties"]
DIGITS = {16: b"0123456789abcdefABCDEF", 10: b"0123456789", 2: b"01", 8: b"01234567"}
MODES = ["i", "I", "a", "ax", "ay", "ind", "aix", "izy"]
PROBES = isa.probes() + ["E(%s)" % t for t in words.TOKENS] + ["E(data_byte)", "E(data_word)", "E(data_string)"] + ["E(%s)" % m for m in MODES] + ["E(c64)"]
RULE = "pasm.l"

def run(ctx):
    ctx.rule = ("for all spellings, letter cases, following characters and scanner states: the token and value are those the notation denotes; for all operand "
                "syntaxes and statement forms: the node term is the one the syntax denotes")
    F = front.Front(ctx, PROBES)
    T = lambda n: ord(n) if len(n) == 1 and not n.isalpha() else ord(n) if n in "XY" else ctx.P(n)
    libc.install_numbers(F.I)
    scanner(ctx, F, T)
    F.I.MAXSTEPS = 10 ** 9
    F2 = F; F2.build_terms()
    grammar(ctx, F2, T)

# ------------------------------------------------------------------ scanner
def scanner(ctx, F, T):
    sc, S, P = F.scan, F.S, ctx.P
    # letter case never matters to the automaton
    diff = [(s, chr(c)) for s in range(1, sc.n) for c in range(97, 123) if sc.step(s, c) != sc.step(s, c - 32)]
    ctx.ob("letter case", not diff, "upper and lower case letters are told apart: %r" % diff[:3], RULE)
    def states(kinds=(".x", 'eol')):
        """arbitrary scanner states at the start of a token"""
        out = []
        for k in kinds:
            st = F.state(); F.last_token(st, k)
            for v, lo, hi in (("do_count", 0, 1 << 20), ("in_macro_definition", 0, 1 << 20)): F.anyvar(st, v, lo, hi)
            out.append((k, st))
        return out
    def word(text):
        """bytes with every letter of either case"""
        return [((c - 32, c - 32), (c, c)) if 97 <= c <= 122 else c for c in text]
    def tokens(key, text, sym, want_tok, value=None, kinds=(".x", 'eol'), follow=words.FOLLOW_WORD, ghost=None):
        text = text.encode() if isinstance(text, str) else text
        r = F.top(0, text, follow)
        if not ctx.ob(key + "/match", bool(r), "%r followed by a delimiter is not read as one word: %r" % (text, sc.matches(0, text + b" ")[:3]), RULE): return
        for kn, st in states(kinds):
            F.yytext(st, word(text) if sym else text)
            for kind, s, v in F.act(r[0], st):
                s, v = (s, v)
                ok = kind == "token" and v == want_tok(s) if callable(want_tok) else kind == "token" and v == want_tok
                ctx.ob(key, ok, "%r is read as %s" % (text, "token %r" % (v,) if kind == "token" else "no token"), RULE)
                if ok and value is not None:
                    got = S.get(s, "yylval", I32)
                    w = value(s)
                    ctx.ob(key + "/value", same_bits(s, got, w, 32), "%r has the value %r instead of %r" % (text, got, w), RULE)
                if ok and ghost: ghost(s)
    for mn in isa.ALL:
        tokens("mnemonic " + mn, mn, True, T("OPCODE"), lambda s, mn=mn: ctx.P("_" + mn))
    for w, t in words.KEYWORDS.items():
        if w == ".if": continue
        for v in ([w] if " " not in w else [w, w.replace(" ", "\t")]): tokens("keyword " + v.replace("\t", "<tab>"), v, True, T(t))
    for w, t in words.SIGNS.items():
        follow = b" \tab1($" if w not in ("\r",) else b" \tab1($;"
        kinds = (".x", 'eol') if w not in "+-" else (".x",)
        tokens("sign " + repr(w), w, False, T(t), kinds=kinds, follow=follow)
    # the .while of a do-loop and the .while that opens one
    for st in [F.state()]:
        F.last_token(st, ".x"); d = F.anyvar(st, "do_count", 0, 1 << 20)
        r = F.top(0, b".while", words.FOLLOW_WORD)
        if ctx.ob("keyword .while/match", bool(r), "not read as a word", RULE):
            F.yytext(st, word(b".while"))
            for kind, s, v in F.act(r[0], st):
                inside = s.rng(d)[0] > 0; outside = s.rng(d)[1] <= 0
                ok = kind == "token" and (inside or outside) and v == T("ENDDO" if inside else "WHILE") and \
                    same_bits(s, S.get(s, "do_count", I32), add(d, -1) if inside else d, 32)
                ctx.ob("keyword .while", ok, "token %r, open do loops %s" % (v, s.rset(d)), RULE)
    st = F.state(); F.last_token(st, ".x"); d = F.anyvar(st, "do_count", 0, 1 << 20)
    r = F.top(0, b".do", words.FOLLOW_WORD)
    if r:
        F.yytext(st, word(b".do"))
        for kind, s, v in F.act(r[0], st):
            ctx.ob("keyword .do/count", same_bits(s, S.get(s, "do_count", I32), add(d, 1), 32), "open do loops %r" % (S.get(s, "do_count", I32),), RULE)
    # which texts are instructions at all
    kind = {}
    def opcode_rule(r):
        if not r: return False
        if r[0] not in kind: kind[r[0]] = None
        return True
    reach = sc.live(0, lambda r: False) if False else None
    # classify rules: run each action on a shortest text it wins for
    toks = {}
    for rule, text in shortest(sc, 0).items():
        st = F.state(); F.last_token(st, ".x"); F.yytext(st, text)
        if rule not in F.lex.cases: continue
        toks[rule] = {(k, v) for k, s, v in F.act(rule, st)}
    ops = {r for r, t in toks.items() if any(k == "token" and v == T("OPCODE") for k, v in t)}
    ws = sc.words(0, lambda r: bool(r) and r[0] in ops)
    got = None
    if ws is not None:
        members = {}
        for b in range(1, 128):
            c = ord(chr(b).lower())
            members.setdefault(sc.ec[b], set()).add(c)
        got = set()
        for w in ws:
            ext = [b""]
            for c in w: ext = [e + bytes([m]) for e in ext for m in sorted(members[sc.ec[c]])]
            got |= {e.decode('latin1') for e in ext}
    ctx.ob("instruction words", got == set(isa.ALL), "the words read as instructions are not exactly the mnemonics: %s" %
           ("unbounded" if got is None else sorted(got ^ set(isa.ALL))[:6]), RULE)
    ctx.extra["scanner"] = {"states": sc.n, "rules with actions followed": len(toks)}
    # modes switched by a directive
    settings = [(".6502 on", "cpu_mode", P("cpu_6502")), (".6502on", "cpu_mode", P("cpu_6502")), (".65c02 on", "cpu_mode", P("cpu_65C02")), (".65c02\t on", "cpu_mode", P("cpu_65C02")),
                (".illegal on", "allow_illegal_op_codes", 1), (".illegal off", "allow_illegal_op_codes", 0), (".warn on", "ignore_warnings", 0),
                (".warn off", "ignore_warnings", 1), (".c64", "output_file_format", P("c64"))]
    for w, g, val in settings:
        r = F.top(0, w.encode(), words.FOLLOW_WORD)
        if not ctx.ob("setting %s/match" % w.replace("\t", "<tab>"), bool(r), "not read as one directive", RULE): continue
        st = F.state(); F.last_token(st, ".x")
        before = {n: F.anyvar(st, n, 0, 1) for n in ("cpu_mode", "allow_illegal_op_codes", "ignore_warnings", "output_file_format")}
        sz = {n: ctx.mod.gv(n).size for n in before}
        F.yytext(st, word(w.encode()))
        for k, s, v in F.act(r[0], st):
            now = {n: S.get(s, n) for n in before}
            ok = k == "next" and all((same_bits(s, now[n], val, 8) if n == g else same_bits(s, now[n], before[n], 8)) for n in before)
            ctx.ob("setting " + w.replace("\t", "<tab>"), ok, "%s becomes %r%s" % (g, now[g], "" if k == "next" else "; a token is returned"), RULE)
    # numbers
    for key, pre, base, off, post in (("$hex", b"$", 16, 1, b""), ("%binary", b"%", 2, 1, b""), ("0b binary", b"0b", 2, 2, b""), ("decimal", b"", 10, 0, b""),
                                      ("quoted hex", b"'\\x", 16, 3, b"'"), ("quoted octal", b"'\\", 8, 2, b"'")):
        number(ctx, F, T, key, pre, base, off, post, states)
    # characters in quotes
    for q in (39, 34):
        qn = "character in %s quotes" % ("single" if q == 39 else "double")
        plain = [c for c in range(1, 256) if c not in (10, 92) and c != q]
        rules = {}
        for c in plain:
            r = F.top(0, bytes([q, c, q]), words.FOLLOW_NUM)
            rules.setdefault(r[0] if r else None, []).append(c)
        ctx.ob(qn + "/match", None not in rules, "%r is not read as one character" % (bytes([q, rules.get(None, [0])[0], q]),), RULE)
        for r, cs in rules.items():
            if r is None: continue
            st = F.state(); F.last_token(st, ".x")
            F.yytext(st, [q, sets(cs), q]); ch = F.chars[1]
            for k, s, v in F.act(r, st):
                got = S.get(s, "yylval", I32)
                ctx.ob(qn, k == "token" and v == T("INTEGER") and same_bits(s, got, ch, 8) and inter(s.rset(got), ((-INF, -1), (256, INF))) == (),
                       "the value is %r (token %r)" % (got, v), RULE)
        for e, val in (("a", 7), ("b", 8), ("t", 9), ("n", 10), ("v", 11), ("f", 12), ("r", 13), ("\\", 92), ("'", 39), ('"', 34)):
            for el in {e, e.upper()}:
                text = bytes([q, 92, ord(el), q])
                r = F.top(0, text, words.FOLLOW_NUM)
                if not ctx.ob("escape %s%s/match" % (chr(q), el), bool(r), "%r is not read as one token" % text, RULE): continue
                st = F.state(); F.last_token(st, ".x"); F.yytext(st, text)
                for k, s, v in F.act(r[0], st):
                    got = S.get(s, "yylval", I32)
                    ctx.ob("escape %s%s" % (chr(q), el), k == "token" and v == T("INTEGER") and got == val, "%r gives token %r value %r" % (text, v, got), RULE)
    names(ctx, F, T, states, word)

def sets(cs):
    return _dom_union([(c if c < 128 else c - 256) for c in cs])
def _dom_union(vs):
    out = []
    for v in sorted(vs):
        if out and out[-1][1] == v - 1: out[-1] = (out[-1][0], v)
        else: out.append((v, v))
    return tuple(out)

def shortest(sc, cond):
    """for each rule a shortest text for which it is tried first"""
    out = {}; seen = {sc.start(cond)}; work = [(sc.start(cond), b"")]
    while work:
        nxt = []
        for s, w in work:
            for c in sc.classes():
                t = sc.step(s, c)
                if t is None or t in seen: continue
                seen.add(t); x = w + bytes([c])
                a = [r for r in sc.accepts(t) if r != sc.eob]
                if a and a[0] not in out: out[a[0]] = x
                nxt.append((t, x))
        work = nxt
    return out

def number(ctx, F, T, key, pre, base, off, post, states):
    sc, S, I = F.scan, F.S, F.I
    digs = DIGITS[base]
    # closure over all digit strings
    rules = set(); bad = None; seen = set(); work = []
    s0 = sc.run(0, pre)
    if len(s0) != len(pre) + 1: bad = pre
    else: work = [(s0[-1], pre, 0)]
    while work and bad is None:
        s, w, n = work.pop()
        for d in digs:
            t = sc.step(s, d)
            if base == 10 and not w and d == ord('0') and False: continue
            if t is None:
                if not post: bad = w + bytes([d])
                elif key == "quoted octal" and n >= 3: pass
                else: bad = w + bytes([d])
                continue
            x = w + bytes([d])
            full = n + 1 == 3 if key == "quoted octal" else True
            if full:
                u = t
                for c in post: u = sc.step(u, c) if u is not None else None
                if u is None: bad = x + post
                else:
                    a = [r for r in sc.accepts(u) if r != sc.eob]
                    if not a: bad = x + post
                    else:
                        rules.add(a[0])
                        if any(sc.step(u, c) is not None for c in words.FOLLOW_NUM if not (post and c in b"'")): bad = x + post
            if key == "quoted octal":
                if n + 1 < 3: work.append((t, x, n + 1))
            elif (t,) not in seen:
                seen.add((t,)); work.append((t, x, n + 1))
            if bad: break
    ctx.ob("number %s/match" % key, bad is None and bool(rules), "%r is not read as one number" % bad, RULE)
    if bad is not None: return
    for r in rules:
        st = F.state(); F.last_token(st, ".x")
        o = I.alloc("yytext", 'heap', fresh("size", 64, len(pre) + len(post) + 2, 1 << 20), 'havoc')
        st.nonnull = st.nonnull | {o.id}
        p = Ptr(o.id, 0)
        for k, c in enumerate(pre): st.wcells(o.id)[k] = (1, c)
        # the length of the text is unknown
        st.slen[(o.id, 0)] = fresh("len", 64, len(pre) + len(post) + 1, 1 << 20)
        S.set(st, "yytext", p); S.set(st, "error_count", 0)
        if ctx.mod.gv("yyleng"): S.set(st, "yyleng", st.slen[(o.id, 0)])
        for k, s, v in F.act(r, st):
            got = S.get(s, "yylval", I32)
            num = None
            for a in dom_atoms(s, got): 
                if a.key[0] in ('strtoul', 'strtol'): num = a
            ok = k == "token" and v == T("INTEGER")
            if num is None:
                ctx.ob("number " + key, False, "token %r, value %r: not a conversion of the digits" % (v, got), RULE); continue
            b = num.key[-1]
            ok = ok and b == base and num.key[1] == repr(Ptr(o.id, off))
            val = _dom.Lin(((num.id, 1),), 0) if hasattr(num, 'id') else None
            errs = S.get(s, "error_count", I32)
            fits = None
            rs = s.rset(_ai.lin_atom(num))
            inrange = subset(rs, ((0, 0x7FFFFFFF),))
            over = not inter(rs, ((0, 0x7FFFFFFF),))
            if inrange: ok2 = same_bits(s, got, _ai.lin_atom(num), 32) and errs == 0
            elif over: ok2 = errs != 0 and not inter(s.rset(errs), ((0, 0),))
            else: ok2 = False
            ctx.ob("number " + key, ok and ok2, "token %r, value %r = digits from position %s in base %r; errors %r" % (v, got, num.key[1], b, errs), RULE)

def dom_atoms(st, v):
    out = []
    seen = set()
    def walk(v):
        if isinstance(v, Lin):
            for a, _ in v.t:
                if a in seen: continue
                seen.add(a); at = _dom.ATOMS[a]; out.append(at)
                for k in (at.key if isinstance(at.key, tuple) else ()): walk(k)
    walk(v)
    return out

def names(ctx, F, T, states, word):
    """identifiers: a label at the start of a line, a symbol elsewhere, with exactly the text written"""
    sc, S = F.scan, F.S
    from engine.libc import cstr
    for text in (b"a1", b"_q.z_9", b"@loop", b"ldax", b"xx", b"notx", b"byte", b"lda.", b"x:", b"lbl:"):
        r = F.top(0, text, words.FOLLOW_WORD)
        if not ctx.ob("name %s/match" % text.decode(), bool(r), "not read as one name: %r" % sc.matches(0, text + b" ")[:3], RULE): continue
        for kn, st in states((None, 'eol', ".x", ".mac")):
            S.set(st, "in_macro_definition", 0)
            F.yytext(st, text)
            for k, s, v in F.act(r[0], st):
                want = "LABEL" if kn in (None, 'eol') else "MACSYMBOL" if kn == ".mac" else "SYMBOL"
                got = cstr(F.I, s, S.get(s, "yylval", PT))
                ctx.ob("name %s after %s" % (text.decode(), {None: "nothing", 'eol': "a line end"}.get(kn, kn)), k == "token" and v == T(want) and got == text.decode(),
                       "token %r with text %r, expected %s" % (v, got, want), RULE)
    for text in (b"++", b"---", b"-", b"+"):
        for kn in ('eol', ".x"):
            r = F.top(0, text, b" \n\tab$")
            if not ctx.ob("anonymous %s/match" % text.decode(), bool(r), "", RULE): continue
            st = F.state(); F.last_token(st, kn); F.yytext(st, text)
            for k, s, v in F.act(r[0], st):
                want = T("LABEL") if kn == 'eol' else T("SYMBOL") if len(text) > 1 else text[0]
                got = cstr(F.I, s, S.get(s, "yylval", PT)) if v != text[0] else text.decode()
                ctx.ob("anonymous %s after %s" % (text.decode(), kn), k == "token" and v == want and got == text.decode(), "token %r, text %r" % (v, got), RULE)
    # string literals keep their text
    for text in (b'"ab"', b'"a\\"b"', b'"a;b"', b'".if"', b'""', b'"abc d"'):
        r = F.top(0, text, b" \n,;)")
        if not ctx.ob("string %s/match" % text.decode(), bool(r), "%r" % sc.matches(0, text + b" ")[:3], RULE): continue
        st = F.state(); F.last_token(st, ".x"); F.yytext(st, text)
        for k, s, v in F.act(r[0], st):
            got = cstr(F.I, s, S.get(s, "yylval", PT)) if k == "token" else None
            ctx.ob("string " + text.decode(), v == T("STRING_LITERAL") and got == text.decode(), "token %r, text %r" % (v, got), RULE)
    # program counter assignment
    for text in (b"*=", b"*  =", b"*\t=", b"*.equ", b"* .equ"):
        r = F.top(0, text, b" \n$a1")
        if not ctx.ob("pc assignment %r/match" % text.decode(), bool(r), "", RULE): continue
        st = F.state(); F.last_token(st, 'eol'); F.yytext(st, word(text))
        for k, s, v in F.act(r[0], st):
            up = [e for e in s.events() if e[0] == 'unput']
            ctx.ob("pc assignment %r" % text.decode(), v == T("PCASSIGN") and len(up) == 1 and up[0][1] == ord('='), "token %r" % (v,), RULE)

# ------------------------------------------------------------------ grammar
def grammar(ctx, F, T):
    P = ctx.P
    S = F.S
    def con(v): return ("constant_node", v, 0)
    def op(o, *a): return ("operator_node", T(o), len(a)) + a
    PC = None
    n = [0]
    def integer():
        n[0] += 1; v = fresh("num%d" % n[0], 32); return [(T("INTEGER"), v)], con(v)
    def symbol(st, s="sym"):
        p = S.text(st, s); return [(T("SYMBOL"), p)], ("id_node", ('text', s))
    def tk(*names): return [(T(x), None) for x in names]
    def exprs(st, bare=True):
        """operand expressions with the terms they denote"""
        i1, t1 = integer(); i2, t2 = integer(); y, ty = symbol(st)
        pc = ("constant_node", S.get(st, "program_counter", I32), 1)
        yield "number", i1, t1
        yield "name", y, ty
        yield "-number", tk("-") + i1, op("UMINUS", t1)
        yield "-(e)", tk("-", "(") + y + tk(")"), op("UMINUS", ty)
        yield "~e", tk("~") + y, op("~", ty)
        yield "<e", tk("<") + y, op("LOBYTE", ty)
        yield ">e", tk(">") + y, op("HIBYTE", ty)
        yield "not e", tk("NOT") + y, op("NOT", ty)
        yield "-", tk("-"), ("id_node", ('text', "-"))
        yield "+", tk("+"), ("id_node", ('text', "+"))
        yield "e+e", y + tk("+") + i2, op("+", ty, t2)
        yield "*+e", tk("*", "+") + i2, op("+", pc, t2)
        yield "(e)-e", tk("(") + y + tk(")", "-") + i2, op("-", ty, t2)
        if not bare:
            yield "*", tk("*"), pc
            yield "(e)", tk("(") + y + tk(")"), ty
    def norm(t):
        """values as comparable terms; lists and statement sequences flattened"""
        if isinstance(t, tuple) and t and t[0] == "operator_node":
            if t[1] in (P("EXPRLIST"), P("STATEMENT")):
                items = []
                for x in t[3:]:
                    x = norm(x)
                    if isinstance(x, tuple) and x and x[0] == 'seq' and x[1] == t[1]: items.extend(x[2])
                    else: items.append(x)
                return ('seq', t[1], tuple(items))
            return ("op", t[1]) + tuple(norm(x) for x in t[3:])
        if isinstance(t, tuple): return tuple(norm(x) for x in t)
        return t
    def statement(key, build, want, labels=None):
        """the statement made of tokens build(st) expands as the terms want(st, e)"""
        st = F.state()
        if labels is not None: st.tags['lookup'] = labels
        for name, toks, exp in build(st):
            s0 = st.fork()
            k = "%s%s" % (key, " with " + name if name else "")
            res = F.parse(toks + tk("EOL") * (0 if name == 'raw' else 1), [(0, None)], s0)
            ctx.need(len(res), "outcome of " + k)
            for stk, s, i, status in res:
                ev = [e[1] for e in s.events() if e[0] == 'expand']
                ok = status == 'done' and len(stk) == 2 and [norm(x) for x in ev] == [norm(x) for x in exp]
                why = "is rejected as a syntax error" if status == 'error' else "builds %s instead of %s" % (show(ev), show(exp))
                ctx.ob(k, ok, why, "pasm.y")
    def show(l): return "; ".join(repr(norm(x)) for x in l)[:300]
    opv = lambda: fresh("instr", 32, 0, P("_maxOpcode") - 1 if ctx.mod.gv("probe__maxOpcode") else 120)
    FORMS = [("implied", None, (), (), "i"), ("#e", 1, ("#",), (), "I"), ("e", 0, (), (), "a"), ("e,x", 0, (), (",", "X"), "ax"), ("e,y", 0, (), (",", "Y"), "ay"),
             ("(e)", 1, ("(",), (")",), "ind"), ("(e,x)", 1, ("(",), (",", "X", ")"), "aix"), ("(e),y", 1, ("(",), (")", ",", "Y"), "izy")]
    for key, bare, pre, post, mode in FORMS:
        def build(st):
            o = fresh("instr", 32, 0, 200)
            head = [(T("OPCODE"), o)]
            if bare is None: yield "", head, [("opcode_node", o, P(mode), 0)]
            else:
                for nm, t, term in exprs(st, bare == 0):
                    yield nm, head + tk(*pre) + t + tk(*post), [("opcode_node", o, P(mode), 1, term)]
        statement("operand " + key, build, None)
    def simple(tokname, term):
        def build(st):
            for nm, t, e in exprs(st, False): yield nm, tk(tokname) + t, [term(e)]
        return build
    statement(".org e", simple("ORG", lambda e: op("ORG", e)), None)
    statement(".ds e", simple("DS", lambda e: op("DS", e)), None)
    lst = lambda *x: ("operator_node", P("EXPRLIST"), 0) + x
    def string(st, s='"ab"'): p = S.text(st, s); return [(T("STRING_LITERAL"), p)], ("string_node", ('text', s))
    for w, t, kind in ((".byte", "BYTE", "data_byte"), (".word", "WORD", "data_word"), (".str", "STR", "data_string")):
        def build(st, t=t, kind=kind):
            for nm, tt, e in exprs(st, False):
                yield nm, tk(t) + tt, [("data_node", P(kind), lst(e))]
                yield nm + ", s, " + nm, tk(t) + tt + tk(",") + string(st)[0] + tk(",") + tt, None
        def build2(st, b=build, t=t, kind=kind):
            for nm, tt, e in exprs(st, False):
                s1, es = string(st)
                yield nm, tk(t) + tt, [("data_node", P(kind), lst(e))]
                yield nm + " and others", tk(t) + tt + tk(",") + s1 + tk(",") + tt, [("data_node", P(kind), lst(lst(lst(e), es), e))]
                yield "a string first, " + nm, tk(t) + s1 + tk(",") + tt, [("data_node", P(kind), lst(lst(es), e))]
        statement(w + " list", build2, None)
    def fill(st):
        for nm, t1, e1 in exprs(st, False):
            t2, e2 = integer(); yield nm, tk("FILL") + t1 + tk(",") + t2, [op("FILL", e1, e2)]
    statement(".fill e, e", fill, None)
    for w, t in ((".print", "PRINT"), (".printall", "PRINTALL")):
        def pr(st, t=t):
            yield "", tk(t), [op(t)]
            i, e = integer(); s1, es = string(st)
            yield "a list", tk(t) + s1 + tk(",") + i, [op(t, lst(lst(es), e))]
        statement(w, pr, None)
    statement(".print on", lambda st: [("", tk("PRINTON"), [("print_state_node", 1)])], None)
    statement(".print off", lambda st: [("", tk("PRINTOFF"), [("print_state_node", 0)])], None)
    def sec(st): y, e = symbol(st); yield "", tk("SECTION") + y, [op("SECTION", e)]
    statement(".section", sec, None)
    statement(".ends", lambda st: [("", tk("ENDSECTION"), [op("ENDSECTION")])], None)
    statement(".end", lambda st: [("", tk("END"), [op("END")])], None)
    for w, t in ((".inc", "INC"), (".load", "LOAD")):
        def inc(st, t=t): s1, es = string(st); yield "", tk(t) + s1, [op(t, es)]
        statement(w, inc, None)
    # assignments and labels
    def label(st, s="lbl"): p = S.text(st, s); return [(T("LABEL"), p)], ("id_node", ('text', s)), ("label_node", ('text', s))
    def assign(head, sign, oper):
        def build(st):
            for nm, t, e in exprs(st, False):
                h, i = (label(st)[:2] if head == "LABEL" else symbol(st, "v")); yield nm, h + tk(sign) + t, [op(oper, i, e)]
        return build
    statement("name = e at the line start", assign("LABEL", "=", "="), None)
    statement("name .equ e at the line start", assign("LABEL", "EQU", "EQU"), None)
    statement("indented name = e", assign("SYMBOL", "=", "EQU"), None)
    statement("indented name .equ e", assign("SYMBOL", "EQU", "EQU"), None)
    def pcas(sign):
        def build(st):
            for nm, t, e in exprs(st, False): yield nm, tk("PCASSIGN", sign) + t, [op("PCASSIGN", e)]
        return build
    statement("*= e", pcas("="), None)
    def lab(st):
        l, i, ln = label(st); o = fresh("instr", 32, 0, 200); pc = ("constant_node", S.get(st, "program_counter", I32), 1)
        yield "an instruction after it", l + [(T("OPCODE"), o)], [op("=", ln, pc), ("opcode_node", o, P("i"), 0)]
        yield "nothing after it", l, [op("=", ln, pc), op("STATEMENT")]
        y, ey = symbol(st, "tag")
        yield "a second name", l + y, [op("=", ln, pc), op("=", ("label_node", ('text', "tag")), pc)]
    statement("label", lab, None)
    def tag(st):
        y, ey = symbol(st, "tag"); pc = ("constant_node", S.get(st, "program_counter", I32), 1)
        yield "", y, [op("=", ("label_node", ('text', "tag")), pc)]
    statement("indented label", tag, None)
    # blocks
    def blocks(st):
        o = fresh("instr", 32, 0, 200); i1 = ("opcode_node", o, P("i"), 0); s1 = [(T("OPCODE"), o)] + tk("EOL")
        q = fresh("instr", 32, 0, 200); i2 = ("opcode_node", q, P("i"), 0); s2 = [(T("OPCODE"), q)] + tk("EOL")
        E0 = op("STATEMENT")
        seq = lambda *x: ("operator_node", P("STATEMENT"), 0) + x
        y, v = symbol(st, "v"); y2, v2 = symbol(st, "v")
        for nm, t, e in exprs(st, False):
            t2, e2 = integer(); t3, e3 = integer()
            yield ".if " + nm, tk("IF") + t + tk("EOL") + s1 + tk("ENDIF"), [op("IF", e, seq(E0, i1))]
            yield ".if/.else " + nm, tk("IF") + t + tk("EOL") + s1 + tk("ELSE", "EOL") + s2 + tk("ENDIF"), [op("IF", e, seq(E0, i1), seq(E0, i2))]
            yield ".repeat/.until " + nm, tk("REPEAT", "EOL") + s1 + s2 + tk("UNTIL") + t, [op("REPEAT", seq(i1, i2), e)]
            yield ".do/.while " + nm, tk("DO", "EOL") + s1 + s2 + tk("ENDDO") + t, [op("DO", seq(E0, i1, i2), e)]
            yield ".while/.wend " + nm, tk("WHILE") + t + tk("EOL") + s1 + s2 + tk("WEND"), [op("WHILE", e, seq(i1, i2))]
            yield ".for/.next " + nm, tk("FOR") + y + tk("=") + t + tk("TO") + t2 + tk("EOL") + s1 + s2 + tk("NEXT") + y2, [op("FOR", op("EQU", v, e), e2, seq(i1, i2), v2)]
            yield ".for/.step " + nm, tk("FOR") + y + tk("=") + t2 + tk("TO") + t + tk("STEP") + t3 + tk("EOL") + s1 + s2 + tk("NEXT") + y2, \
                [op("FOR", op("EQU", v, e2), e, seq(i1, i2), v2, e3)]
            for R, X in (("REGX", "X"), ("REGY", "Y")):
                for d, c in (("TO", 1), ("DOWNTO", -1)):
                    yield "register loop %s %s %s" % (X, d, nm), tk("FOR", R, "=") + t + tk(d) + t2 + tk("EOL") + s1 + s2 + tk("NEXT", X), \
                        [op(R, e, e2, seq(i1, i2), ("constant_node", c, 0))]
        m = S.text(st, "mac1")
        yield ".macro", tk("MACRO") + [(T("MACSYMBOL"), m)] + tk("EOL") + s1 + s2 + tk("ENDMACRO"), [op("MACRO", ("macro_id_node", ('text', "mac1")), seq(E0, i1, i2))]
        for nm, t, e in exprs(st, False):
            st1, es = string(st)
            yield "macro call " + nm, [(T("MACSYMBOL"), m)] + t + tk(",") + st1, [("macro_expand_node", ('text', "mac1"), lst(lst(e), es))]
            yield ".var " + nm, tk("VAR") + y + tk(",") + y2 + tk("=") + t, [op("VAR", lst(lst(v), v2, e))]
        yield "macro call without arguments", [(T("MACSYMBOL"), m)], [("macro_expand_node", ('text', "mac1"), NULL)]
    statement("block", blocks, None)
    ctx.extra["parser"] = {"states": F.lr.nstates, "rules": len(F.lr.r2) - 1}
