"""The automata of the generated scanner and parser, read from the tables in the program's IR."""
import re

def vector(mod, name):
    g = mod.gv(name)
    if g is None: return None
    c = g.cells()
    if not c: return [0] * 1
    sz = next(iter(c.values()))[0]
    return [c.get(k, (sz, 0))[1] for k in range(0, g.size, sz)]

class TableError(Exception): pass

class Scanner:
    """flex automaton (compressed tables; with or without the accept lists REJECT brings)"""
    def __init__(self, mod, text):
        v = lambda n: vector(mod, n)
        self.ec, self.base, self.defs, self.nxt, self.chk, self.meta = (v("yy_" + n) for n in ("ec", "base", "def", "nxt", "chk", "meta"))
        self.acc, self.lst = v("yy_accept"), v("yy_acclist")
        if None in (self.ec, self.base, self.defs, self.nxt, self.chk, self.acc): raise TableError("scanner tables not found")
        self.n = len(self.acc) - (1 if self.lst is not None else 0)
        m = re.search(r"yy_current_state >= (\d+)", text)
        if m: self.n = int(m.group(1))
        m = re.search(r"yy_base\[yy_current_state\] != (\d+)", text)
        if not m: raise TableError("jam state of the scanner not found")
        self.jambase = int(m.group(1))
        self.conds = {"INITIAL": 0}
        for a, b in re.findall(r"^#define (\w+) (\d+)\s*$", text[text.find("#define INITIAL"):text.find("#ifndef YY_NO_UNISTD_H")], re.M): self.conds[a] = int(b)
        m = re.search(r"#define YY_END_OF_BUFFER (\d+)", text)
        self.eob = int(m.group(1))
        self._step = {}
    def start(self, cond): return 1 + 2 * cond
    def eof_rule(self, cond): return self.eob + cond + 1
    def jams(self, s): return self.base[s] == self.jambase
    def step(self, s, byte):
        """state after one more character, None when the match cannot go on"""
        k = (s, byte)
        if k in self._step: return self._step[k]
        r = None
        if not self.jams(s):
            c = self.ec[byte]; t = s
            for _ in range(100000):
                if self.chk[self.base[t] + c] == t: break
                t = self.defs[t]
                if t >= self.n: c = self.meta[c]
            else: raise TableError("scanner tables loop")
            r = self.nxt[self.base[t] + c]
            if self.jams(r) and not self.accepts(r): r = None
        self._step[k] = r
        return r
    def accepts(self, s):
        if self.lst is not None: return [x for x in self.lst[self.acc[s]:self.acc[s + 1]]]
        a = self.acc[s]
        return [a] if a else []
    def run(self, cond, data):
        """states after 0, 1, 2, ... characters (stops when nothing longer can match)"""
        s = self.start(cond); out = [s]
        for b in data:
            s = self.step(s, b)
            if s is None: break
            out.append(s)
        return out
    def matches(self, cond, data):
        """(length, rule) in the order the scanner prefers them"""
        st = self.run(cond, data)
        return [(k, r) for k in range(len(st) - 1, 0, -1) for r in self.accepts(st[k]) if r != self.eob]
    def extends(self, s):
        """can some longer text match from state s?"""
        seen = set(); work = [s]
        while work:
            t = work.pop()
            for c in self.classes():
                u = self.step(t, c)
                if u is None or u in seen: continue
                if self.accepts(u): return True
                seen.add(u); work.append(u)
        return False
    def classes(self):
        """one character of each class the tables distinguish"""
        if not hasattr(self, '_cl'):
            d = {}
            for b in range(1, 256): d.setdefault(self.ec[b], b)
            for b in range(ord('a'), ord('z') + 1): d[self.ec[b]] = b
            self._cl = sorted(d.values())
        return self._cl
    def words(self, cond, want, limit=4000, maxlen=24):
        """all texts (one per class sequence) for which want(accepted rules) holds; None when there are infinitely many"""
        live = self.live(cond, want)
        out = []; work = [(self.start(cond), b"")]
        while work:
            s, w = work.pop()
            if len(w) > maxlen or len(out) > limit: return None
            for c in self.classes():
                t = self.step(s, c)
                if t is None or t not in live: continue
                x = w + bytes([c])
                if want(self.accepts(t)): out.append(x)
                work.append((t, x))
        return sorted(out)
    def live(self, cond, want):
        """states on a way to a state with want"""
        succ = {}; work = [self.start(cond)]; seen = {self.start(cond)}
        while work:
            s = work.pop()
            succ[s] = {t for t in (self.step(s, c) for c in self.classes()) if t is not None}
            for t in succ[s]:
                if t not in seen: seen.add(t); work.append(t)
        good = {s for s in seen if want(self.accepts(s))}
        while True:
            m = {s for s in seen if s not in good and succ[s] & good}
            if not m: return good
            good |= m

class Parser:
    """bison LALR automaton"""
    def __init__(self, mod, text):
        v = lambda n: vector(mod, n)
        self.pact, self.trans, self.check, self.table, self.defact, self.pgoto, self.defgoto, self.stos, self.r1, self.r2 = \
            (v(n) for n in ("yypact", "yytranslate", "yycheck", "yytable", "yydefact", "yypgoto", "yydefgoto", "yystos", "yyr1", "yyr2"))
        if self.r1 is None or self.r2 is None:
            # held in the function's constants only when unused; take them from the generated text
            for n in ("r1", "r2"):
                m = re.search(r"\byy%s\[\]\s*=\s*\{([^}]*)\}" % n, text)
                if not m: raise TableError("parser table not found: yy" + n)
                setattr(self, n, [int(x) for x in m.group(1).replace("\n", " ").split(",")])
        if None in (self.pact, self.trans, self.check, self.table, self.defact, self.pgoto, self.defgoto): raise TableError("parser tables not found")
        d = lambda n: int(re.search(r"#define %s\s+\(?(-?\d+)\)?" % n, text).group(1))
        self.final, self.last, self.ntok, self.pninf, self.tninf = d("YYFINAL"), d("YYLAST"), d("YYNTOKENS"), d("YYPACT_NINF"), d("YYTABLE_NINF")
        self.nstates = len(self.pact)
        self._act = {}; self._goto = {}
        u = lambda l: [x & 255 for x in l]
        self.trans = u(self.trans); 
        if re.search(r"yytype_uint8 yydefact|yytype_uint8 yydefgoto", text) or True:
            self.defact = [x & 0xFFFF if x < 0 and len(self.r1) > 255 else x & 255 if x < 0 else x for x in self.defact]
            self.defgoto = [x & 255 if x < 0 else x for x in self.defgoto]
            self.r1 = u(self.r1); self.r2 = u(self.r2)
    def action(self, s, tok):
        k = (s, tok)
        a = self._act.get(k)
        if a is None: a = self._act[k] = self.action_(s, tok)
        return a
    _act = {}
    def action_(self, s, tok):
        """('shift', state) | ('reduce', rule) | ('error',) | ('accept',) for the external token number"""
        n = self.pact[s]
        if n != self.pninf:
            t = 0 if tok <= 0 else self.trans[tok] if tok < len(self.trans) else 2
            k = n + t
            if 0 <= k <= self.last and self.check[k] == t:
                a = self.table[k]
                if a <= 0:
                    if a == self.tninf: return ('error',)
                    return ('reduce', -a)
                if a == self.final and False: return ('accept',)
                return ('shift', a)
        if s == self.final: return ('accept',)
        r = self.defact[s]
        return ('reduce', r) if r else ('error',)
    def default(self, s):
        """the reduction taken without looking at the next token, or None"""
        return self.defact[s] if self.pact[s] == self.pninf and self.defact[s] else None
    def goto(self, s, rule):
        k = (s, self.r1[rule])
        g = self._goto.get(k)
        if g is None: g = self._goto[k] = self.goto_(s, rule)
        return g
    _goto = {}
    def goto_(self, s, rule):
        l = self.r1[rule] - self.ntok
        k = self.pgoto[l] + s
        if 0 <= k <= self.last and self.check[k] == s: return self.table[k]
        return self.defgoto[l]
    def derive(self, toks, p, follow):
        """parse the tokens from state p, followed by token follow, without looking below p.
        -> (tree, status): tree = nested (rule, children) over token positions; status 'below' when the
        context takes over, 'error', or 'shift' when follow itself would be shifted"""
        stk = [(p, None)]; i = 0; seq = list(toks) + [follow]
        for _ in range(10000):
            s = stk[-1][0]
            d = self.default(s)
            a = ('reduce', d) if d is not None else self.action(s, seq[i])
            if a[0] in ('error', 'accept'): return None, 'error'
            if a[0] == 'shift':
                if i == len(toks): return [t for _, t in stk[1:]], 'shift'
                stk.append((a[1], i)); i += 1; continue
            r = a[1]; n = self.r2[r]
            if len(stk) - n < 1: return [t for _, t in stk[1:]], 'below' if i == len(toks) else 'early'
            ch = tuple(t for _, t in stk[len(stk) - n:]) if n else ()
            stk = stk[:len(stk) - n] if n else stk
            stk = stk + [(self.goto(stk[-1][0], r), (r, ch))]
        raise TableError("parse does not end")
