"""Loop statements through the real node constructors and the real expander; the statements of the
body and the conditions are stand-ins that record that they were expanded.  Used by C35 and C17."""
from .common import *
from .common import _ai
from . import scen, isa
from .scen import I8, I32, PT
MODES = ["i", "I", "r"]
OPS = ["ldx", "ldy", "inx", "iny", "dex", "dey", "cpx", "cpy", "bcc", "bcs", "bne", "beq", "bpl", "bmi", "sec", "clc"]
PROBES = ["E(%s)" % t for t in ("REGX", "REGY", "FOR", "WHILE", "REPEAT", "DO", "IF", "VAR", "STATEMENT")] + ["E(%s)" % m for m in MODES] + \
    ["E(_%s)" % o for o in OPS] + ["OO(parse_node,opcode.instruction,op_instr)", "OO(parse_node,opcode.mode,op_mode)", "O(parse_node,op)", "O(parse_node,number_of_ops)",
     "OO(parse_node,con.value,con_value)", "O(symbol_table,value)", "O(symbol_table,is_initialized)", "O(symbol_table,is_var)"]

class Loops:
    def __init__(self, ctx):
        self.ctx = ctx
        self.S = S = scen.Scn(ctx, sorted(set(PROBES)))
        self.I = I = S.I
        I.unroll = 6; I.unroll_decided = 64
        self.cut = []
        self.limit = 2
        P = ctx.P
        self.names = {P("_" + o): o for o in OPS}
        self.hook = None
        def code(I, st, a, inst):
            n = a[0]
            kind = st.tags.get(('node', n.o)) if isinstance(n, Ptr) else None
            pc = S.get(st, "program_counter")
            if kind == 'body':
                k = st.tags.get('bodies', 0) + 1
                st.tags['bodies'] = k
                st.event('body', n.o, pc, I.where(inst), self.hook(st) if self.hook else None)
                if k > self.limit: self.cut.append(st); return []
            else:
                op = S.rd(st, n, "parse_node", "op_instr"); mode = S.rd(st, n, "parse_node", "op_mode")
                no = S.rd(st, n, "parse_node", "number_of_ops")
                v = None
                if no == 1:
                    arr = S.rd(st, n, "parse_node", "op", PT)
                    c = I.load(st, arr, PT)
                    v = S.rd(st, c, "parse_node", "con_value")
                elif no != 0: v = UNDEF
                st.event('ins', self.names.get(op, op), mode, v, I.where(inst), pc)
            npc = fresh("pc", 32, 0, self.pcmax)
            S.set(st, "program_counter", npc)
            if kind == 'body':
                st.tags['pc', k] = npc
                if self.after: self.after(st)
            return 0
        ctx.fn("expand_op_code_node")
        I.models["expand_op_code_node"] = code
        def cond(I, st, a, inst):
            n = a[0]
            if not (isinstance(n, Ptr) and st.tags.get(('node', n.o)) == 'cond'): return I.exec(ctx.fn("expand_id_node"), a, st, inst)
            v = fresh("cond", 32)
            k = st.tags.get('conds', 0) + 1; st.tags['conds'] = k
            st.event('cond', v, I.where(inst))
            if k > self.limit + 1: self.cut.append(st); return []
            return v
        ctx.fn("expand_id_node")
        I.models["expand_id_node"] = cond
        # error reporting counts and records the place
        old = I.models["yymessage"]
        def msg(I, st, a, inst):
            st.event('message', I.where(inst)); return old(I, st, a, inst)
        I.models["yymessage"] = msg
        self.after = None
        self.pcmax = 0xFFFF
    def begin(self):
        S = self.S
        st = S.start()
        S.set(st, "program_counter", fresh("pc", 32, 0, 0xFFFF))
        S.set(st, "final_pass", fresh("final", 32, 0, 1))
        self.cut = []
        self.I.exits.clear()
        return st
    def body(self, st):
        st, n = self.S.one("opcode_node", [self.ctx.P("_sec"), self.ctx.P("i"), 0], st)
        st.tags[('node', n.o)] = 'body'
        return st, n
    def cond(self, st):
        st, n = self.S.one("id_node", [self.S.text(st, "cc")], st)
        st.tags[('node', n.o)] = 'cond'
        return st, n
    def const(self, st, v, pc=0): return self.S.one("constant_node", [v, pc], st)
    def op(self, st, tok, *ops):
        return self.S.one("operator_node", [self.ctx.P(tok) if len(tok) > 1 else ord(tok), len(ops)] + list(ops), st)
    def var(self, st, name, value=None, is_var=1):
        """a declared variable and its entry"""
        S = self.S
        st, y = S.one("add_symbol", [S.text(st, name)], st)
        S.wr(st, y, "symbol_table", "is_var", is_var, I8)
        S.wr(st, y, "symbol_table", "is_initialized", 1, I8)
        if value is not None: S.wr(st, y, "symbol_table", "value", value)
        return st, y
    def run(self, st, node):
        """[(state, events, how)] how: done | cut | exit"""
        S, I = self.S, self.I
        mark = st.ev
        self.cut = []; I.exits.clear()
        pick = ('ins', 'body', 'cond', 'message', 'write')
        res = S.call("expand_node", [node], st)
        out = [(s, [e for e in scen.ev_since(s, mark) if e[0] in pick], 'done') for s, v in res]
        out += [(s, [e for e in scen.ev_since(s, mark) if e[0] in pick], 'cut') for s in self.cut]
        out += [(x[0], [e for e in scen.ev_since(x[0], mark) if e[0] in pick], 'exit') for x in I.exits]
        I.exits.clear()
        return out
