"""C24: every operator computes its conventional result."""
from .common import *
from . import exprs, front, words
EXPLANATION = ("Abstract interpretation of operator_node and expand_node (LLVM IR of /repo's current sources) for every operator token on "
               "two symbolic 32-bit operands; the value on every path is compared with the conventional operation as a term over the operands "
               "(comparisons and logical operators: the path conditions must imply the 0/1 result).")
ASSUMPTIONS = ["arithmetic is that of 32-bit two's complement integers", "~ complements a value of 0..255 within a byte and others within 16 bits (repository tests pin this)"]
def run(ctx):
    ctx.rule = "for all operands and paths: result term == conventional operation; an error is reported instead only for division by zero or a negative shift count"
    ctx.load(sorted(set(exprs.PROBES + ["E(%s)" % t for t in words.TOKENS])))
    spelled(ctx)
    X = exprs.Exprs(ctx)
    for op in exprs.BINARY + exprs.UNARY:
        for kinds in exprs.kinds(op): one(ctx, X, op, kinds)
def spelled(ctx):
    """from the characters of the operator to the operator node over its operands in order"""
    F = front.Front(ctx); F.build_terms()
    T = lambda n: ord(n) if len(n) == 1 else ctx.P(n)
    def lexed(text, key):
        r = F.top(0, text.encode(), b" $(" if text.isalpha() else b" $a1")
        if not r: ctx.ob(key, False, "%r is not read as one token" % text, "pasm.l"); return None
        st = F.state(); F.last_token(st, ".x"); F.yytext(st, text)
        o = F.act(r[0], st)
        vs = {v if k == "token" else None for k, s, v in o}
        return vs.pop() if len(vs) == 1 else None
    def built(key, toks, want):
        st = F.state(); p = F.S.text(st, "s")
        head = [(T("PCASSIGN"), None), (T("="), None)]
        for stk, s, i, status in F.parse(head + toks + [(T("EOL"), None)], [(0, None)], st):
            ev = [e[1] for e in s.events() if e[0] == 'expand']
            w = ("operator_node", T("PCASSIGN"), 1, want)
            ctx.ob(key, status == 'done' and ev == [w], "builds %r instead of %r" % (ev, w), "pasm.y")
    a, b = fresh("left", 32), fresh("right", 32)
    C = lambda v: ("constant_node", v, 0)
    for text, op in sorted(words.SIGNS.items()):
        if op not in exprs.BINARY: continue
        key = "source text %s" % text
        t = lexed(text, key)
        if t is None: ctx.ob(key, False, "%r is not read as an operator" % text, "pasm.l"); continue
        built(key, [(T("INTEGER"), a), (t, None), (T("INTEGER"), b)], ("operator_node", T(op), 2, C(a), C(b)))
    for text, op in (("~", "~"), ("<", "LOBYTE"), (">", "HIBYTE"), ("not", "NOT"), ("-", "UMINUS")):
        key = "source text %s as prefix" % text
        t = lexed(text, key)
        if t is None: ctx.ob(key, False, "%r is not read as an operator" % text, "pasm.l"); continue
        built(key, [(t, None), (T("INTEGER"), a)], ("operator_node", T(op), 1, C(a)))
def one(ctx, X, op, kinds):
        name = exprs.SHOW.get(op, op) + ("" if kinds[0] == kinds[1] == "con" else "/" + ",".join(kinds if op in exprs.BINARY else kinds[:1]))
        outs = X.apply(op, kinds)
        ctx.need(len(outs), "outcome of operator " + name)
        for st, r, a, b, err in outs:
            if err:
                zero = op == "/" and subset(st.rset(b), ((0, 0),))
                shf = op in ("SHIFT_LEFT", "SHIFT_RIGHT") and subset(st.rset(b), ((-INF, -1), (32, INF)))
                ctx.ob("operator " + name, zero or shf, "an error is reported for operands %s, %s" % (st.rset(a), st.rset(b) if b is not None else ""), "expand.cc")
                continue
            if op in ("SHIFT_LEFT", "SHIFT_RIGHT") and subset(st.rset(b), ((-INF, -1),)): continue
            m = exprs.judge(ctx, op, st, r, a, b)
            ctx.ob("operator " + name, m is None, m or "", "expand.cc (handler of %s)" % name)
        X.S.I.exits.clear()
