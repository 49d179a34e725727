"""Data statements (.byte, .word, .str, .fill, .ds, .load): the real node constructors and the
real expander, in an address pass and in the writing pass, on symbolic values; the written
bytes are compared with the items.  Shared by C07, C08 and C26."""
from .common import *
from .common import _ai
from . import scen, exprs
from engine.ai import bits
PROBES = ["E(EXPRLIST)", "E(FILL)", "E(DS)", "E(LOAD)", "E(data_byte)", "E(data_word)", "E(data_string)",
          "OO(parse_node,str.value,str_value)", "OO(parse_node,str.len,str_len)"]
FIT = {1: (-254, 255), 2: (-65534, 65535), 0: (-65534, 65535)}
SIZE = {"byte": 1, "word": 2, "str": 0}
LISTS = ["N", "S0", "S1", "S2", "S3", "S7", "S70", "S129", "N,N", "N,N,N", "N,S3,N", "S3,S4,S1", "S0,N", "V", "L,V", "X,N", "F", "F,N", "S3,F"]
COUNTS = [0, 1, 2, 3, 4, 5, 8, 9, 255, 256, 257, 1000]
I8 = scen.I8; PT = scen.PT

class Data:
    def __init__(self, ctx):
        self.ctx = ctx
        self.S = scen.Scn(ctx, sorted(set(PROBES + exprs.PROBES)))
        self.I = self.S.I
        self.I.unroll_decided = 64
        self.out = []
        self.later = []
    def ob(self, prop, key, ok, detail="", where=""): self.out.append((prop, key, bool(ok), detail, where))
    def string(self, st, k):
        """a string literal of k characters, each any non-zero byte"""
        S = self.S
        st, n = S.one("string_node", [S.text(st, '"' + "x" * min(k, 3) + '"')], st)
        o = self.I.alloc("string", 'heap', k + 1, 'undef'); st.nonnull = st.nonnull | {o.id}
        p = Ptr(o.id, 0)
        cs = []
        for j in range(k):
            c = fresh("c%d" % j, 8); st.assume(c, ((-128, -1), (1, 127))); cs.append(c)
            st.wcells(o.id)[j] = (1, c)
        st.wcells(o.id)[k] = (1, 0)
        st.slen[(o.id, 0)] = k
        S.wr(st, n, "parse_node", "str_value", p, PT); S.wr(st, n, "parse_node", "str_len", k)
        return st, n, ("S", cs, p)
    def item(self, st, kind):
        S = self.S
        if kind[0] == "S": return self.string(st, int(kind[1:]))
        v = fresh("v", 32)
        if kind == "N":
            st, n = S.one("constant_node", [v, 0], st)
        elif kind == "X":
            st, a = S.one("constant_node", [v, 0], st)
            st, b = S.one("constant_node", [0, 0], st)
            st, n = S.one("operator_node", [ord('+'), 2, a, b], st)
        else:
            nm = "sym%d" % self.k; self.k += 1
            st, y = S.one("add_symbol", [S.text(st, nm)], st)
            if kind == "F": self.later.append((y, v))      # known only after the address pass
            else: S.wr(st, y, "symbol_table", "value", v); S.wr(st, y, "symbol_table", "is_initialized", 1, I8)
            st, n = S.one("label_node" if kind == "L" else "id_node", [S.text(st, nm)], st)
        return st, n, ("N", v)
    def position(self, st, final=0):
        """the image is where the location counter says (C09 shows that it always is)"""
        S = self.S
        pc = fresh("pc", 32, 0, 0xFFFF); tot = fresh("written", 32, 1, 1 << 20); bd = fresh("delta", 32, 0, 1 << 20)
        pos = (pc, tot, bd, add(sub(pc, tot), bd))
        self.place(st, pos, final)
        S.set(st, "program_counter_assigned", 1); S.set(st, "origin_specified", 1); S.set(st, "output_file", S.out)
        return pos
    def place(self, st, pos, final):
        S = self.S
        S.set(st, "program_counter", pos[0]); S.set(st, "total_bytes_written", pos[1]); S.set(st, "byte_delta", pos[2]); S.set(st, "origin", pos[3])
        S.set(st, "final_pass", final); st.ev = None
    def both(self, st, node, key):
        """[(state, address pass outcome, writing pass outcome)]; outcome = (advance, error?)"""
        S, I = self.S, self.I
        pos = self.position(st, 0)
        e0 = S.get(st, "error_count")
        res = []
        ex = [s for s, c, w, stk in I.exits]; I.exits.clear()
        for a, _ in S.call("expand_node", [node], st):
            dA = sub(S.get(a, "program_counter"), pos[0]); eA = S.get(a, "error_count") != e0
            w = [e for e in a.events() if e[0] == 'write']
            self.ob("C08", key + "/address-pass", not w, "bytes are written in a pass that only computes addresses", w[0][4] if w else "")
            self.place(a, pos, 1)
            for y, v in self.later: S.wr(a, y, "symbol_table", "value", v); S.wr(a, y, "symbol_table", "is_initialized", 1, I8)
            e1 = S.get(a, "error_count")
            for f, _ in S.call("expand_node", [node], a):
                res.append((f, dA, eA, sub(S.get(f, "program_counter"), pos[0]), S.get(f, "error_count") != e1,
                            sub(S.get(f, "total_bytes_written"), pos[1])))
        return res
    def flat(self, st):
        """written bytes: list of terms, a block as ('blk', ptr, n)"""
        b = []
        for e in st.events():
            if e[0] != 'write': continue
            if isinstance(e[2], Ptr): b.append(("blk", e[2], e[3]))
            else: b.append(e[2])
        return b
    def eq8(self, st, a, b): return same_bits(st, a, b)
    def match(self, st, got, want):
        """compare with blocks expanded"""
        g = []
        for x in got:
            if isinstance(x, tuple) and x[0] == "blk":
                if not isinstance(x[2], int): return "a block of %r bytes is written" % (x[2],)
                for j in range(x[2]): g.append(self.I.load(st, Ptr(x[1].o, add(x[1].off, j)), I8))
            else: g.append(x)
        if len(g) != len(want): return "%d bytes are written, the items have %d" % (len(g), len(want))
        for k, (x, y) in enumerate(zip(g, want)):
            if not self.eq8(st, x, y): return "byte %d is %r, expected %r" % (k, x, y)
        return None
    def listed(self, kind, spec, st=None, behind=""):
        S, I = self.S, self.I
        key = ".%s %s" % (kind, spec) + behind
        self.k = 0; self.later = []
        st = S.start() if st is None else st.fork()
        items = []; node = None
        for it in spec.split(","):
            st, n, d = self.item(st, it)
            items.append(d)
            args = [self.ctx.P("EXPRLIST"), 1, n] if node is None else [self.ctx.P("EXPRLIST"), 2, node, n]
            st, node = S.one("operator_node", args, st)
        st, node = S.one("data_node", [self.ctx.P({"byte": "data_byte", "word": "data_word", "str": "data_string"}[kind]), node], st)
        I.exits.clear()
        outs = self.both(st, node, key)
        self.judge(key, kind, items, outs)
    def judge(self, key, kind, items, outs):
        I = self.I
        size = SIZE[kind]
        for s, c, w, stk in I.exits:
            bad = [d for d in items if d[0] == "N" and not subset(s.rset(d[1]), (FIT[size],))]
            self.ob("C08", key, bool(bad), "the assembler is left by exit", w)
        I.exits.clear()
        clean = 0
        for f, dA, eA, dF, eF, dT in outs:
            nums = [d[1] for d in items if d[0] == "N"]
            where = "expand.cc (data list)"
            for e in f.events():
                if e[0] == 'write': where = e[4]; break
            if eA or eF:
                bad = [v for v in nums if not subset(f.rset(v), (FIT[size],))]
                self.ob("C08", key + "/accepted", bool(bad), "a statement whose values fit is rejected: %s" % [f.rset(v) for v in nums], where)
                continue
            clean += 1
            want = []; amb = None
            for d in items:
                if d[0] == "S":
                    want += d[1]
                    if size == 2 and len(d[1]) % 2: want.append(0)
                    continue
                v = d[1]; rs = f.rset(v)
                out = inter(rs, compl((FIT[size],)))
                self.ob("C07", "%s/%s" % (kind, "list" if len(items) > 1 else "item"), not out, "value %s of .%s does not fit and is emitted without an error" % (out, kind), where)
                n = size
                if n == 0:
                    if subset(rs, ((0, 255),)): n = 1
                    elif not inter(rs, ((0, 255),)): n = 2
                    else: amb = "the path does not distinguish one-byte values of %s" % (rs,); n = 1
                want += [bits(f, v, 8 * j, 8) for j in range(n)]
            m = amb or self.match(f, self.flat(f), want)
            self.ob("C08", key, m is None, "%s (values %s)" % (m, [f.rset(v) for v in nums]), where)
            self.ob("C08", key + "/advance", dF == len(want), "the location counter advances by %r, the items have %d bytes" % (dF, len(want)), where)
            if not (kind == "str" and self.later): self.ob("C08", key + "/address-pass", dA == len(want), "an address pass advances by %r, the items have %d bytes" % (dA, len(want)), where)
            self.ob("C08", key + "/count", dT == len(want), "the count of written bytes advances by %r for %d bytes" % (dT, len(want)), where)
        self.ob("C08", key, clean > 0, "the statement is never accepted", "expand.cc")
    def after(self, what):
        """state behind an earlier statement of the program"""
        S, P = self.S, self.ctx.P
        st = S.start(); self.k = 50; self.later = []
        kind, arg = what
        if kind == "fill":
            b = fresh("before", 32, 0, 255)
            st, a = S.one("constant_node", [b, 0], st); st, c = S.one("constant_node", [arg, 0], st)
            st, node = S.one("operator_node", [P("FILL"), 2, a, c], st)
        else:
            st, n, d = self.item(st, arg)
            st, node = S.one("operator_node", [P("EXPRLIST"), 1, n], st)
            st, node = S.one("data_node", [P({"byte": "data_byte", "word": "data_word", "str": "data_string"}[kind]), node], st)
        self.I.exits.clear()
        out = [f for f, dA, eA, dF, eF, dT in self.both(st, node, "earlier statement") if not eA and not eF]
        self.I.exits.clear()
        return out
    def sequences(self):
        """every directive behind every other: nothing of the earlier one shows"""
        for what in (("fill", 1), ("fill", 2), ("fill", 3), ("byte", "N"), ("word", "N"), ("str", "S1"), ("word", "S1")):
            for st in self.after(what):
                nm = " behind .%s %s" % what
                for c in (1, 2, 3): self.fill(c, st, nm)
                for kind, spec in (("byte", "N"), ("word", "N"), ("word", "S1"), ("str", "S1"), ("str", "N")): self.listed(kind, spec, st, nm)
    def fill(self, count, st=None, behind=""):
        self.later = []
        S, I = self.S, self.I
        key = ".fill value,%d" % count + behind
        st = S.start() if st is None else st.fork(); v = fresh("v", 32)
        st, a = S.one("constant_node", [v, 0], st); st, b = S.one("constant_node", [count, 0], st)
        st, node = S.one("operator_node", [self.ctx.P("FILL"), 2, a, b], st)
        I.exits.clear()
        outs = self.both(st, node, key)
        self.judge_fill(key, v, count, outs)
    def judge_fill(self, key, v, count, outs):
        I = self.I
        for s, c, w, stk in I.exits:
            rs = inter(s.rset(v), ((0, 255),))
            self.ob("C08", key + "/accepted", not rs or count < 0, "the assembler is left by exit for fill value %s" % (rs,), w)
        I.exits.clear()
        if count < 0:
            for f, dA, eA, dF, eF, dT in outs: self.ob("C08", key, eA or eF, "a negative count is accepted", "expand.cc (fill)")
            self.ob("C08", key, True)
            return
        clean = 0
        for f, dA, eA, dF, eF, dT in outs:
            rs = f.rset(v)
            if eA or eF:
                self.ob("C08", key + "/accepted", not inter(rs, ((0, 255),)), "a fill value that fits is rejected: %s" % (rs,), "expand.cc (fill)"); continue
            clean += 1
            where = next((e[4] for e in f.events() if e[0] == 'write'), "expand.cc (fill)")
            if count: self.ob("C07", "fill/value", subset(rs, (FIT[1],)), "fill value %s does not fit a byte and is emitted without an error" % (rs,), where)
            m = self.match(f, self.flat(f), [bits(f, v, 0, 8)] * count)
            self.ob("C08", key, m is None, m or "", where)
            self.ob("C08", key + "/advance", dF == count, "the location counter advances by %r for %d bytes" % (dF, count), where)
            self.ob("C08", key + "/address-pass", dA == count, "an address pass advances by %r for %d bytes" % (dA, count), where)
            self.ob("C08", key + "/count", dT == count, "the count of written bytes advances by %r for %d bytes" % (dT, count), where)
        self.ob("C08", key, clean > 0, "the statement is never accepted", "expand.cc")
    def ds(self):
        S, I = self.S, self.I
        key = ".ds count"
        st = S.start(); v = fresh("v", 32)
        st, a = S.one("constant_node", [v, 0], st)
        st, node = S.one("operator_node", [self.ctx.P("DS"), 1, a], st)
        I.exits.clear()
        n = 0
        for f, dA, eA, dF, eF, dT in self.both(st, node, key):
            if eA or eF: continue
            n += 1
            self.ob("C08", key, dA == dF, "reserving %s advances an address pass by %r, the writing pass by %r" % (f.rset(v), dA, dF), "expand.cc (ds)")
            self.ob("C08", key + "/writes", dT == 0 and not self.flat(f), "reserving space writes bytes", "expand.cc (ds)")
            if inter(f.rset(v), ((1, INF),)):
                self.ob("C08", key + "/count", sub(dF, v) == 0 or dF == v, "reserving %s advances by %r" % (f.rset(v), dF), "expand.cc (ds)")
        I.exits.clear()
        self.ob("C08", key, n > 0, "never accepted", "expand.cc (ds)")
    def load(self, n):
        """.load of a file of n bytes"""
        S, I = self.S, self.I
        key = ".load of %d bytes" % n
        st = S.start()
        f = S.file(I, "loaded")
        data = [fresh("f%d" % j, 8, 0, 255) for j in range(n)]
        POS = ('filepos', f.o)
        saved = {k: I.models.get(k) for k in ("fopen", "open_file", "fgetc", "getc", "ftell", "feof", "fseek", "rewind", "fread", "fclose")}
        def fopen(I, st, a, inst):
            st.tags[POS] = 0; st.tags[('eof', f.o)] = 0
            return f
        def getc(I, st, a, inst):
            k = st.tags[POS]
            if k < n: st.tags[POS] = k + 1; return data[k]
            st.tags[('eof', f.o)] = 1
            return -1
        def fseek(I, st, a, inst):
            if not isinstance(a[1], int) or not isinstance(a[2], int): raise _ai.AnalysisError("fseek with unknown arguments")
            st.tags[POS] = {0: 0, 1: st.tags[POS], 2: n}[a[2]] + a[1]; st.tags[('eof', f.o)] = 0
            return 0
        def fread(I, st, a, inst):
            if not isinstance(a[1], int) or not isinstance(a[2], int): raise _ai.AnalysisError("fread with unknown arguments")
            k = st.tags[POS]; m = min(a[1] * a[2], n - k)
            I.check_access(st, a[0], max(1, a[1] * a[2]), inst, 'store')
            for j in range(m): I.store(st, Ptr(a[0].o, add(a[0].off, j)), data[k + j], I8)
            st.tags[POS] = k + m
            if m < a[1] * a[2]: st.tags[('eof', f.o)] = 1
            return m // a[1] if a[1] else 0
        I.models.update({"fopen": fopen, "open_file": fopen, "fgetc": getc, "getc": getc, "fseek": fseek, "fread": fread,
                         "ftell": lambda I, st, a, inst: st.tags[POS], "feof": lambda I, st, a, inst: st.tags[('eof', f.o)],
                         "rewind": lambda I, st, a, inst: fseek(I, st, [a[0], 0, 0], inst) and None,
                         "fclose": lambda I, st, a, inst: 0})
        try:
            st, sn = S.one("string_node", [S.text(st, '"data.bin"')], st)
            st, node = S.one("operator_node", [self.ctx.P("LOAD"), 1, sn], st)
            I.exits.clear()
            outs = self.both(st, node, key)
        finally:
            for k, m in saved.items():
                if m is None: I.models.pop(k, None)
                else: I.models[k] = m
        for s, c, w, stk in I.exits: self.ob("C08", key, False, "the assembler is left by exit", w)
        I.exits.clear()
        for s, dA, eA, dF, eF, dT in outs:
            where = next((e[4] for e in s.events() if e[0] == 'write'), "expand.cc (load)")
            m = "an error is reported" if eA or eF else self.match(s, self.flat(s), data)
            self.ob("C08", key, m is None, m or "", where)
            self.ob("C08", key + "/advance", dF == n and dA == n, "the location counter advances by %r (address pass %r) for %d bytes" % (dF, dA, n), where)
    def all(self):
        for kind in SIZE:
            for spec in LISTS: self.listed(kind, spec)
        for c in COUNTS: self.fill(c)
        self.fill(-1)
        self.ds()
        for n in range(6): self.load(n)

def run(ctx, prop, prefix=""):
    D = Data(ctx)
    def hook(kind):
        def f(I, st, a, b, inst):
            w = inst.ty.bits
            if kind == "div":
                if inter(st.rset(b), ((0, 0),)): D.ob("C26", "data statements/division", False, "divides by zero", I.where(inst))
            elif inter(st.rset(b), compl(((0, w - 1),))): D.ob("C26", "data statements/shift", False, "shifts by %s" % (st.rset(b),), I.where(inst))
        return f
    D.I.on_div = hook("div"); D.I.on_shift = hook("shift")
    D.all()
    if prop == "C08": D.sequences()
    D.ob("C26", "data statements", True)
    n = 0
    for p, key, ok, d, w in D.out:
        if p == prop: ctx.ob(prefix + key, ok, d, w); n += 1
    ctx.need(n, "data statement")
    return D
