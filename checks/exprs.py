"""Operators of the expression language: the real node constructors and the real
expander on symbolic operand values, every path compared with the conventional result."""
from .common import *
from .common import _ai
from . import scen
from engine.ai import bits, wrap, opaque
W = 32
MIN, MAX = -(1 << 31), (1 << 31) - 1
TOKENS = ["SHIFT_LEFT", "SHIFT_RIGHT", "OR", "AND", "GE", "LE", "NE", "EQ", "BIT_AND", "BIT_OR", "UMINUS", "LOBYTE", "HIBYTE", "NOT"]
PROBES = ["E(%s)" % t for t in TOKENS] + ["OO(parse_node,con.value,con_value)", "O(symbol_table,value)", "O(symbol_table,is_initialized)"]
CMP = {"<": ((-INF, -1),), ">": ((1, INF),), "LE": ((-INF, 0),), "GE": ((0, INF),), "EQ": ((0, 0),), "NE": ((-INF, -1), (1, INF))}
BINARY = ["+", "-", "*", "/", "BIT_OR", "BIT_AND", "^", "SHIFT_LEFT", "SHIFT_RIGHT", "<", ">", "LE", "GE", "EQ", "NE", "AND", "OR"]
UNARY = ["UMINUS", "~", "LOBYTE", "HIBYTE", "NOT"]
SHOW = {"BIT_OR": "|", "BIT_AND": "&", "SHIFT_LEFT": "<<", "SHIFT_RIGHT": ">>", "LE": "<=", "GE": ">=", "EQ": "==", "NE": "!=",
        "AND": "&&", "OR": "||", "UMINUS": "unary -", "LOBYTE": "lo byte", "HIBYTE": "hi byte", "NOT": "!"}
FULL = ((MIN, MAX),)

def tok(ctx, op): return ord(op) if len(op) == 1 else ctx.P(op)

def eq32(st, a, b):
    if a == b: return True
    if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)): return False
    if wrap(st, a, W) == wrap(st, b, W): return True
    ra, rb = st.rset(a), st.rset(b)
    return len(ra) == 1 and ra == rb and ra[0][0] == ra[0][1]

def truth(st, r, A, v, what):
    """A: list of (value, set) meaning 'the result is 1 exactly when some value lies in its set' (given as predicate)"""

def judge(ctx, op, st, r, a, b):
    """None if the result is conventional on this path, else a description"""
    def bad(exp): return "yields %r where the operands are %s, %s; conventionally %s" % (r, st.rset(a), st.rset(b) if b is not None else "", exp)
    def logical(is_true, is_false):
        """is_true/is_false: whether the path constraints imply / exclude truth"""
        rs = st.rset(r) if isinstance(r, (int, Lin)) else None
        if rs is None: return bad("0 or 1")
        if is_true and not is_false: return None if rs == ((1, 1),) else bad(1)
        if is_false and not is_true: return None if rs == ((0, 0),) else bad(0)
        return bad("depends on operands the path does not distinguish")
    if op in CMP:
        d = st.rset(sub(a, b)); t = CMP[op]
        # the difference is exact (no wrap): operands are mathematical integers
        return logical(subset(d, t), not inter(d, t))
    nz = ((-INF, -1), (1, INF))
    if op in ("AND", "OR"):
        ta, fa = not inter(st.rset(a), ((0, 0),)), not inter(st.rset(a), nz)
        tb, fb = not inter(st.rset(b), ((0, 0),)), not inter(st.rset(b), nz)
        if op == "AND": return logical(ta and tb, fa or fb)
        return logical(ta or tb, fa and fb)
    if op == "NOT":
        return logical(not inter(st.rset(a), nz), not inter(st.rset(a), ((0, 0),)))
    def cst(x):
        s = st.rset(x)
        return s[0][0] if len(s) == 1 and s[0][0] == s[0][1] else None
    A, B = (x if cst(x) is None else cst(x) for x in (a, 0 if b is None else b))
    pairs = {(x, y) for x in (a, A) for y in (0 if b is None else b, B)}
    alts = []
    for x, y in pairs:
        srt = tuple(sorted((x, y), key=repr))
        both = isinstance(x, int) and isinstance(y, int)
        if op == "+": alts.append(add(x, y))
        elif op == "-": alts.append(sub(x, y))
        elif op == "*":
            if isinstance(x, int) or isinstance(y, int): alts.append(scale(y, x) if isinstance(x, int) else scale(x, y))
            else:
                alts.append(opaque('mul', srt, MIN, MAX))
        elif op in ("BIT_OR", "BIT_AND", "^"):
            nm = {"BIT_OR": "or", "BIT_AND": "and", "^": "xor"}[op]
            if both: alts.append({"or": x | y, "and": x & y, "xor": x ^ y}[nm])
            else:
                class _I: pass
                i = _I(); i.op = nm
                class _T: pass
                i.ty = _T(); i.ty.bits = 32; i.ty.kind = 'i'
                alts.append(ctx.interps[-1].binop(st, i, x, y))
        elif op == "SHIFT_LEFT":
            s = st.rset(y)
            if isinstance(y, int):
                if y > 31: alts.append(0)
                elif y >= 0: alts.append(wrap(st, scale(x, 1 << y), W))
            elif subset(s, ((32, INF),)): alts.append(0)
            elif subset(s, ((0, 31),)): alts += [opaque('shl', (x, y, w), MIN, MAX) for w in (32, 64)]
        elif op == "SHIFT_RIGHT":
            s = st.rset(y)
            n = opaque('ashr', (x, 31), -1, 0)
            if isinstance(y, int) and 0 <= y:
                k = min(y, 31)
                alts.append(x >> k if isinstance(x, int) else opaque('ashr', (x, k), MIN, MAX))
                if not isinstance(x, int) and st.rng(x)[0] >= 0: alts.append(bits(st, x, k, 32 - k))
            elif subset(s, ((32, INF),)):
                alts.append(n)
                if st.rng(x)[0] >= 0: alts.append(0)
                if st.rng(x)[1] < 0: alts.append(-1)
            elif subset(s, ((0, 31),)): alts += [opaque('ashr', (x, y, w), MIN, MAX) for w in (32, 64)]
        elif op == "/":
            if y == 0: return "/0"
            if both: 
                q = abs(x) // abs(y)
                alts.append(-q if (x < 0) != (y < 0) else q)
            elif y == 1: alts.append(x)
            elif y == -1: alts.append(neg(x))
            if not both:
                alts.append(opaque('sdiv', (x, y, 32), MIN, MAX))
                q = opaque('sdiv', (x, y, 64), -(1 << 63), (1 << 63) - 1)
                alts.append(wrap(st, q, W)); alts.append(q)
        elif op == "UMINUS": alts.append(neg(x))
        elif op == "LOBYTE": alts.append(bits(st, x, 0, 8))
        elif op == "HIBYTE": alts.append(bits(st, x, 8, 8))
        elif op == "~":
            if subset(st.rset(x), ((0, 255),)): alts += [sub(255, x), bits(st, sub(-1, x), 0, 8)]
            elif not inter(st.rset(x), ((0, 255),)): alts += [sub(65535, bits(st, x, 0, 16)), bits(st, sub(-1, x), 0, 16)]
    if any(eq32(st, r, x) for x in alts): return None
    return bad(" or ".join(repr(x) for x in alts) or "distinguishes these operands")

class Exprs:
    def __init__(self, ctx):
        self.ctx = ctx
        self.S = S = scen.Scn(ctx, PROBES)
        self.hazards = []
        self.seen = set()
        self.divs = 0
        def hook(kind):
            def f(I, st, a, b, inst):
                self.seen.add((kind, I.where(inst)))
                w = inst.ty.bits
                if kind == "div":
                    if inst.op in ("sdiv", "srem"):
                        if inter(st.rset(b), ((0, 0),)): self.hazards.append((I.where(inst), "divides by zero", st.rset(b)))
                        lo = -(1 << (w - 1))
                        if inter(st.rset(a), ((lo, lo),)) and inter(st.rset(b), ((-1, -1),)):
                            self.hazards.append((I.where(inst), "the quotient of %d and -1 overflows" % lo, st.rset(a)))
                    elif inter(st.rset(b), ((0, 0),)): self.hazards.append((I.where(inst), "divides by zero", st.rset(b)))
                else:
                    rs = inter(st.rset(b), compl(((0, w - 1),)))
                    if rs: self.hazards.append((I.where(inst), "shifts by an amount outside the word", rs))
            return f
        S.I.on_div = hook("div"); S.I.on_shift = hook("shift")
    def consts(self, st, n):
        S = self.S; vs = []; ns = []
        for k in range(n):
            v = fresh("v%d" % k, 32)
            st, p = S.one("constant_node", [v, 0], st)
            vs.append(v); ns.append(p)
        return st, vs, ns
    def operand(self, st, kind, k):
        """an operand with an arbitrary value: a constant, a known symbol or a compound expression"""
        S = self.S; v = fresh("v%d" % k, 32)
        if kind == "con": st, p = S.one("constant_node", [v, 0], st)
        elif kind == "sum":
            st, a = S.one("constant_node", [v, 0], st); st, b = S.one("constant_node", [0, 0], st)
            st, p = S.one("operator_node", [ord('+'), 2, a, b], st)
        else:
            st, y = S.one("add_symbol", [S.text(st, "operand%d" % k)], st)
            S.wr(st, y, "symbol_table", "value", v); S.wr(st, y, "symbol_table", "is_initialized", 1, scen.I8)
            st, p = S.one("id_node", [S.text(st, "operand%d" % k)], st)
        return st, v, p
    def apply(self, op, kinds=("con", "con")):
        """outcomes [(state, result, a, b, errors_before)] of one operator on symbolic operands"""
        S, ctx = self.S, self.ctx
        n = 2 if op in BINARY else 1
        st = S.start(); vs = []; ns = []
        for k in range(n):
            st, v, p = self.operand(st, kinds[k], k)
            vs.append(v); ns.append(p)
        e0 = S.get(st, "error_count")
        out = []
        for s, p in S.call("operator_node", [tok(ctx, op), n] + ns, st):
            for f, r in S.call("expand_node", [p], s):
                out.append((f, r, vs[0], vs[1] if n == 2 else None, S.get(f, "error_count") != e0))
        return out
KINDS = [("con", "con"), ("sym", "sym"), ("sum", "sum"), ("con", "sym"), ("sym", "con")]
def kinds(op): return KINDS if op in BINARY else KINDS[:3]
