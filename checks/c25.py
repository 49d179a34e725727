"""C25: precedence and grouping of the operators."""
from .common import *
from . import front, words
EXPLANATION = ("Every parser state in which an operand can stand is found in the bison tables; from each of them the moves on 'a op1 b op2 c' for every pair of "
               "operators (and with prefix operators and parentheses at every place) are read off the tables, and the term the reduce actions build from the "
               "derivation is compared with the grouping the precedence levels prescribe. The decision after 'a op1 b' depends on the state and the next "
               "token only, so that longer chains follow by induction.")
ASSUMPTIONS = ["bison generates from pasm.y what the build generates"]
LEVELS = [("SHIFT_LEFT", "SHIFT_RIGHT"), ("OR", "AND", "GE", "LE", "EQ", "NE", ">", "<"), ("BIT_OR", "BIT_AND", "^"), ("+", "-"), ("*", "/")]
LEVEL = {o: k for k, l in enumerate(LEVELS) for o in l}
SHOW = {"SHIFT_LEFT": "<<", "SHIFT_RIGHT": ">>", "OR": "||", "AND": "&&", "GE": ">=", "LE": "<=", "EQ": "==", "NE": "!=", "BIT_OR": "|", "BIT_AND": "&", "NOT": "not"}
PREFIX = {"~": "~", "<": "LOBYTE", ">": "HIBYTE", "NOT": "NOT"}
PROBES = ["E(%s)" % t for t in words.TOKENS]

def run(ctx):
    ctx.rule = "for every parser state that starts an operand and every pair of operators: the derivation groups by level, left to right within a level; prefix operators take all that follows; parentheses override"
    F = front.Front(ctx, PROBES); F.build_terms()
    LR = F.lr
    T = lambda n: ord(n) if len(n) == 1 else ctx.P(n)
    INT = T("INTEGER")
    ops = sorted(LEVEL, key=repr)
    follows = [T(t) for t in ("EOL", ")", ",", "TO", "DOWNTO", "STEP")]
    # states in which an operand starts and is then followed by an operator
    starts = []
    for p in range(LR.nstates):
        if LR.default(p) is not None or LR.action(p, INT)[0] != 'shift': continue
        if all(LR.derive([INT], p, T(o))[1] == 'shift' for o in ops): starts.append(p)
    ctx.need(len(starts), "parser state in which an operand starts")
    nstarts = len(starts)
    ends = {p: [f for f in follows if LR.derive([INT], p, f)[1] in ('below', 'shift')] for p in starts}
    cache = {}
    def template(rule, kinds):
        """what the action of a rule builds from its right-hand side, once for all values"""
        k = (rule, kinds)
        if k not in cache:
            st = F.state(); marks = []; vals = []
            for q in kinds:
                if q is None: vals.append(None); marks.append(None); continue
                if q == 'int': v = fresh("mark", 32)
                else:
                    o = F.I.alloc("mark", 'heap', 64, 'undef'); st.nonnull = st.nonnull | {o.id}; v = Ptr(o.id, 0)
                vals.append(v); marks.append(v)
            r = F.reduce(rule, vals, st)
            outs = {repr(s.tags.get(('term', v.o), v) if isinstance(v, Ptr) else v): (s.tags.get(('term', v.o), v) if isinstance(v, Ptr) else v) for s, v in r}
            if len(outs) != 1: raise Broken("the action of grammar rule %d depends on more than its operands" % rule)
            cache[k] = (marks, next(iter(outs.values())))
        return cache[k]
    def term(tree, toks):
        """the node term a derivation builds"""
        if isinstance(tree, int): return toks[tree][1]
        kids = [term(c, toks) for c in tree[1]]
        kinds = tuple((None if toks[c][1] is None else 'int') if isinstance(c, int) else 'node' for c in tree[1])
        marks, t = template(tree[0], kinds)
        def sub_(x):
            if isinstance(x, tuple): return tuple(sub_(y) for y in x)
            for m, v in zip(marks, kids):
                if m is not None and x == m: return v
            return x
        t = sub_(t)
        if isinstance(t, tuple) and t[0] == "operator_node" and t[1] == ctx.P("EXPRLIST") and len(t) == 4: return t[3]
        return t
    leaf = {n: fresh(n, 32) for n in "abc"}
    def C(n): return ("constant_node", leaf[n], 0)
    def op(o, *a): return ("operator_node", T(o), len(a)) + a
    def num(n): return [(INT, leaf[n])]
    def tk(*n): return [(T(x), None) for x in n]
    cases = []
    sh = lambda o: SHOW.get(o, o)
    for o1 in ops:
        for o2 in ops:
            left = op(o2, op(o1, C("a"), C("b")), C("c")); right = op(o1, C("a"), op(o2, C("b"), C("c")))
            cases.append(("a %s b %s c" % (sh(o1), sh(o2)), num("a") + tk(o1) + num("b") + tk(o2) + num("c"), left if LEVEL[o2] <= LEVEL[o1] else right))
        for u, uo in PREFIX.items():
            cases.append(("%s a %s b" % (sh(u), sh(o1)), tk(u) + num("a") + tk(o1) + num("b"), op(uo, op(o1, C("a"), C("b")))))
            cases.append(("a %s %s b" % (sh(o1), sh(u)), num("a") + tk(o1, u) + num("b"), op(o1, C("a"), op(uo, C("b")))))
            for o2 in ops:
                cases.append(("a %s %s b %s c" % (sh(o1), sh(u), sh(o2)), num("a") + tk(o1, u) + num("b") + tk(o2) + num("c"), op(o1, C("a"), op(uo, op(o2, C("b"), C("c"))))))
        cases.append(("-a %s b" % sh(o1), tk("-") + num("a") + tk(o1) + num("b"), op(o1, op("UMINUS", C("a")), C("b"))))
        cases.append(("-(a) %s b" % sh(o1), tk("-", "(") + num("a") + tk(")", o1) + num("b"), op(o1, op("UMINUS", C("a")), C("b"))))
        cases.append(("a %s -b" % sh(o1), num("a") + tk(o1, "-") + num("b"), op(o1, C("a"), op("UMINUS", C("b")))))
        for o2 in ops:
            cases.append(("a %s (b %s c)" % (sh(o1), sh(o2)), num("a") + tk(o1, "(") + num("b") + tk(o2) + num("c") + tk(")"), op(o1, C("a"), op(o2, C("b"), C("c")))))
            cases.append(("(a %s b) %s c" % (sh(o1), sh(o2)), tk("(") + num("a") + tk(o1) + num("b") + tk(")", o2) + num("c"), op(o2, op(o1, C("a"), C("b")), C("c"))))
    n = 0
    for name, toks, want in cases:
        ids = [t for t, _ in toks]
        done = 0
        for p in starts:
            trees = []
            for f in ends[p] if len(ids) <= 3 else ends[p][:1]:
                tree, how = LR.derive(ids, p, f)
                if how in ('below', 'shift') and tree is not None and len(tree) == 1: trees.append(tree[0])
                elif how in ('below', 'shift') and tree is not None:
                    ctx.ob(name, False, "is not reduced to one expression in parser state %d" % p, "pasm.y")
                    trees.append(None)
            if not trees:
                # an operand that begins here may not begin with this token (a parenthesis opens an indirect operand, ...)
                if LR.derive(ids[:1], p, ids[1])[1] == 'early' or ids[0] != INT: continue
                ctx.ob(name, False, "is rejected in parser state %d" % p, "pasm.y"); continue
            for t in trees:
                if t is None: continue
                done += 1; n += 1
                got = term(t, toks)
                ctx.ob(name, got == want, "groups as %s, not as %s (parser state %d)" % (show(ctx, got), show(ctx, want), p), "pasm.y")
        if not done: ctx.ob(name, False, "is nowhere read as an expression", "pasm.y")
    ctx.extra["operand_states"] = nstarts; ctx.extra["derivations"] = n

def show(ctx, t):
    if not isinstance(t, tuple): return repr(t)
    if t[0] == "constant_node": return repr(t[1]).split("#")[0].strip("(")
    if t[0] == "operator_node":
        nm = {ctx.P(x): SHOW.get(x, x) for x in words.TOKENS}.get(t[1], chr(t[1]) if 0 < t[1] < 128 else t[1])
        a = [show(ctx, x) for x in t[3:]]
        return "(%s %s %s)" % (a[0], nm, a[1]) if len(a) == 2 else "%s(%s)" % (nm, ",".join(a))
    return repr(t)
