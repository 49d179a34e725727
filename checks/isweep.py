"""Sweep over every (cpu, illegal switch, instruction, operand syntax): the real node
constructor, then the real expander in an address pass and in the writing pass, on
symbolic operand values; twice, so that the second expansion sees what the first left.
Shared by C01, C03, C04, C05, C06 and C07, which take the obligations tagged for them."""
import os, multiprocessing as mp
from .common import *
from .common import _ai
from . import isa, scen, chartext
from engine.ai import bits

PROBES = ["OO(parse_node,con.value,con_value)", "Z(parse_node)"]
SYNTAX = ["imp", "imm", "abs", "absx", "absy", "ind", "aix", "izy"]     # what the grammar can pass
FAMILY = {"abs": {"abs", "zp", "rel"}, "absx": {"absx", "zpx"}, "absy": {"absy", "zpy"}, "ind": {"ind", "zpi"},
          "aix": {"aix", "izx"}, "izy": {"izy"}, "imm": {"imm"}, "imp": {"imp", "acc"}}
INVERSE = {"bcc": "bcs", "bcs": "bcc", "beq": "bne", "bne": "beq", "bmi": "bpl", "bpl": "bmi", "bvc": "bvs", "bvs": "bvc"}
INVERSE.update({"bbr%d" % n: "bbs%d" % n for n in range(8)}); INVERSE.update({"bbs%d" % n: "bbr%d" % n for n in range(8)})
# values an n-byte operand can hold (negative: magnitude below the largest value, two's complement)
FIT = {1: (-254, 255), 2: (-65534, 65535)}

class Sweep:
    def __init__(self, ctx, S, listing=False):
        self.ctx, self.S, self.I = ctx, S, S.I
        self.out = []
        self.paths = 0
        self.listing = listing
    def ob(self, prop, key, ok, detail="", where=""):
        self.out.append((prop, key, bool(ok), detail, where))
    def cfg(self, st, cpu, ill):
        self.S.set(st, "cpu_mode", self.ctx.P("cpu_" + ("6502" if cpu == "6502" else "65C02")))
        self.S.set(st, "allow_illegal_op_codes", ill)
    def errors(self, st): return self.S.get(st, "error_count")
    def run(self, cpu, ill, mn, syn):
        S, P = self.S, self.ctx.P
        T = isa.table(cpu, ill)
        forms = {m: c for m, c in T.get(mn, {}).items() if m in FAMILY[syn]}
        if syn == "ind" and "zpi" in T.get(mn, {}): forms["zpi"] = T[mn]["zpi"]
        if syn == "imp" and "acc" in T.get(mn, {}): forms["acc"] = T[mn]["acc"]
        if (mn, syn) in isa.OPTIONAL and ill: forms.setdefault(syn, isa.OPTIONAL[(mn, syn)])
        if syn == "abs" and "rel" in T.get(mn, {}): forms = {"rel": T[mn]["rel"]}
        key = "%s%s/%s/%s" % (cpu, "+illegal" if ill else "", mn, syn)
        st = S.start(); self.cfg(st, cpu, ill)
        e0 = self.errors(st)
        v0 = fresh("v0", 32)
        if syn == "imp":
            built = [(s, p, None) for s, p in S.call("opcode_node", [P("_" + mn), P(isa.MODES[syn]), 0], st)]
        else:
            built = []
            for s, n in S.call("constant_node", [v0, 0], st):
                for s2, p in S.call("opcode_node", [P("_" + mn), P(isa.MODES[syn]), 1, n], s):
                    built.append((s2, p, n))
        self.I.exits.clear()
        fn = self.ctx.fn("opcode_node")
        where = "%s:%s (opcode_node)" % (fn.file, fn.line)
        for s, p, n in built:
            bad = self.errors(s) != e0
            if not forms:
                if bad: self.ob("C01", key, True)
                else:
                    # accepted by the constructor: must be rejected by the expander, for every value
                    self.expansions(s, p, n, key, cpu, ill, mn, syn, {}, T)
                continue
            if bad:
                self.ob("C01", key, (mn, syn) in isa.OPTIONAL or set(forms) <= {"acc"} and syn == "imp", "an instruction form the CPU has is rejected when its operand is %s" %
                        (s.rset(v0),), where)
                continue
            self.expansions(s, p, n, key, cpu, ill, mn, syn, forms, T)
        if forms and syn != "imp":
            self.unknown(key, cpu, ill, mn, syn, forms)
            if cpu != "6502" and ill:
                I = self.I; old = I.unroll_decided, I.exact_sort, I.unroll
                I.unroll_decided = 64; I.exact_sort = True; I.unroll = 16
                self.named(key, cpu, ill, mn, syn, forms, T)
                I.unroll_decided, I.exact_sort, I.unroll = old
    def named(self, key, cpu, ill, mn, syn, forms, T):
        """operand is a label defined before, in each of the ways to name one"""
        S, P, I = self.S, self.ctx.P, self.I
        for kind, name in (("label", "target"), ("local label", "@target"), ("anonymous label", "-"), ("expression of a label", "target")):
            if kind == "anonymous label" and syn == "imm": continue
            st = S.start(); self.cfg(st, cpu, ill)
            S.set(st, "current_file_name", S.text(st, "a.asm")); S.set(st, "final_pass", 0); S.set(st, "yylineno", 3)
            S.set(st, "last_label", S.text(st, "start"))
            v = fresh("v", 32, 0, 0xFFFF)
            S.set(st, "program_counter", v)
            st, l = S.one("label_node", [S.text(st, name)], st)
            st, c = S.one("constant_node", [0, 1], st)
            st, d = S.one("operator_node", [61, 2, l, c], st)
            for st, _ in list(S.call("expand_node", [d], st)):
                S.set(st, "yylineno", 4)
                pc = fresh("pc", 32, 0, 0xFFFF)
                S.set(st, "program_counter", pc)
                st, n = S.one("id_node", [S.text(st, name)], st)
                if kind == "expression of a label":
                    st, z = S.one("constant_node", [0, 0], st)
                    st, n = S.one("operator_node", [43, 2, n, z], st)
                e0 = self.errors(st)
                fn = self.ctx.fn("opcode_node")
                for s, p in S.call("opcode_node", [P("_" + mn), P(isa.MODES[syn]), 1, n], st):
                    if self.errors(s) != e0:
                        self.ob("C01", key + "/" + kind, (mn, syn) in isa.OPTIONAL or max(isa.BYTES[m] for m in forms) == 1 and not inter(s.rset(v), ((0, 255),)), "an instruction form the CPU has is rejected when its operand is a %s with value %s" % (kind, s.rset(v)),
                                "%s:%s (opcode_node)" % (fn.file, fn.line))
                        continue
                    lo, hi = s.rng(v)
                    self.expansions(s, p, None, key + "/" + kind, cpu, ill, mn, syn, forms, T, lo if lo == hi else v, pc)
            I.exits.clear()
    def unknown(self, key, cpu, ill, mn, syn, forms):
        """operand is a symbol that has no value yet"""
        S, P, I = self.S, self.ctx.P, self.I
        st = S.start(); self.cfg(st, cpu, ill)
        st, n = S.one("id_node", [S.text(st, "fwd")], st)
        pc = fresh("pc", 32, 0, 0xFFFF)
        for s, p in S.call("opcode_node", [P("_" + mn), P(isa.MODES[syn]), 1, n], st):
            S.set(s, "program_counter", pc); S.set(s, "final_pass", 0)
            e0 = self.errors(s)
            for a, _ in S.call("expand_node", [p], s):
                if self.errors(a) != e0: continue
                self.paths += 1
                d = sub(S.get(a, "program_counter"), pc)
                want = {1 + max(isa.BYTES[m] for m in forms)}
                if "rel" in forms: want = {2, 3, 5}
                if "zpi" in forms: want = {2, 3}
                self.ob("C04", key + "/unknown", d in want, "with a still unknown operand the location counter advances by %r, expected %s" % (d, sorted(want)),
                        "expand.cc (expand_op_code_node)")
        I.exits.clear()
    def expansions(self, s, p, n, key, cpu, ill, mn, syn, forms, T, v0=None, pc0=None):
        S, I = self.S, self.I
        work = [s]
        for rnd in (1, 2):
            nxt = []
            for s in work:
                s = s.fork()
                v = v0
                if n is not None:
                    v = fresh("v", 32)
                    S.wr(s, n, "parse_node", "con_value", v)
                pc = fresh("pc", 32, 0, 0xFFFF) if pc0 is None or rnd > 1 else pc0
                tot = fresh("written", 32, 1, 1 << 20); bd = fresh("delta", 32, 0, 1 << 20)
                # the image is where the location counter says (C09 shows that it always is)
                org = add(sub(pc, tot), bd)
                e0 = self.errors(s)
                S.set(s, "program_counter", pc); S.set(s, "final_pass", 0); S.set(s, "program_counter_assigned", 1)
                S.set(s, "origin_specified", 1); S.set(s, "output_file", S.out); S.set(s, "origin", org)
                S.set(s, "total_bytes_written", tot); S.set(s, "byte_delta", bd)
                s.ev = None
                for a, _ in S.call("expand_node", [p], s):
                    dA = sub(S.get(a, "program_counter"), pc); eA = self.errors(a) != e0
                    wA = [e for e in a.events() if e[0] == 'write']
                    if wA: self.ob("C10", key, False, "bytes are written in a pass that only computes addresses", wA[0][4])
                    S.set(a, "program_counter", pc); S.set(a, "final_pass", 1); S.set(a, "total_bytes_written", tot)
                    S.set(a, "origin", org); S.set(a, "byte_delta", bd)
                    e1 = self.errors(a); a.ev = None
                    if self.listing:
                        n0 = chartext.listing(S, a)
                        self.ob("C28", key, not n0, "listing rows are recorded in a pass that only computes addresses", "node.cc (generate_list_node)")
                        S.set(a, "list_head", NULL)
                    I.exits.clear()
                    for f, _ in S.call("expand_node", [p], a):
                        self.paths += 1
                        dF = sub(S.get(f, "program_counter"), pc); eF = self.errors(f) != e1
                        self.judge(f, key + ("" if rnd == 1 else "/again"), cpu, ill, mn, syn, forms, T, v, pc, dA, eA, dF, eF)
                        if not eF and not eA: nxt.append(f)
                    I.exits.clear()
            work = nxt[:6]
    def judge(self, st, key, cpu, ill, mn, syn, forms, T, v, pc, dA, eA, dF, eF):
        ob = self.ob
        W = [e for e in st.events() if e[0] == 'write']
        where = W[0][4] if W else "expand.cc (expand_op_code_node)"
        again = key.endswith("/again")
        def vs(): return "" if v is None else " for operand %s" % (st.rset(v),)
        if eF or eA:
            # the statement is rejected: then it must have no encoding
            if eA and not eF and W:
                pass
            if "rel" in forms:
                d = sub(sub(v, pc), 2)
                rs = inter(st.rset(d), ((-128, 127),))
                rs = rs if inter(st.rset(v), ((0, 65535),)) else ()
                ob("C05", key, not rs, "a branch whose displacement lies in %s is rejected" % (rs,), where)
                if mn in INVERSE and mn[:3] not in ("bbr", "bbs") and not rs:
                    ob("C06", key, not inter(st.rset(v), ((0, 65535),)), "an out-of-range branch with an opposite condition is rejected%s" % vs(), where)
                elif not rs: ob("C06", key, True)
            elif forms and v is not None:
                big = max(isa.BYTES[m] for m in forms)
                lo = -254 if forms.keys() & {"imm"} else 0
                okset = ((0, 255),) if big == 1 else ((0, 65535),)
                rs = inter(st.rset(v), okset)
                ob("C01", key, not rs, "a statement whose operand fits is rejected for operand %s" % (rs,), where)
                ob("C07", key, True)
            elif not forms: ob("C01", key, True)
            else: ob("C01", key, False, "rejected", where)
            return
        if not W:
            ob("C03", key, False, "nothing is written for an accepted instruction%s" % vs(), where); return
        bv = [e[2] for e in W]
        if self.listing:
            rows = [chartext.shown(r) for r in chartext.listing(self.S, st)]
            lb = [x for r in rows if r is not None for x in r[1]]
            ok = len(lb) == len(bv) and all(self.same(st, x, y, 8) for x, y in zip(lb, bv))
            self.ob("C28", key, ok, "the listing shows %s, the image has %s%s" % (self.show(lb), self.show(bv), vs()), "node.cc (generate_list_node)")
            at = 0
            for r in rows:
                if r is None: continue
                want = [bits(st, add(pc, at), 8, 8), bits(st, add(pc, at), 0, 8)]
                self.ob("C28", key + "/address", r[0] is not None and None not in r[0] and all(self.same(st, x, y, 8) for x, y in zip(r[0], want)),
                        "the listing shows address %r, expected %r" % (r[0], want), "node.cc (generate_list_node)")
                at += len(r[1])
            self.S.set(st, "list_head", NULL)
            return
        if any(e[3] != 1 for e in W): ob("C03", key, False, "unexpected block write", where); return
        op = bv[0]
        if not isinstance(op, int):
            ob("C01", key, False, "opcode byte is not determined: %r" % (op,), where); return
        if not forms:
            ob("C01", key, False, "an instruction form this CPU lacks is assembled as $%02X%s" % (op, vs()), where); return
        ob("C03", key, dA == dF, "location counter advances by %r in an address pass, by %r in the writing pass%s" % (dA, dF, vs()), where)
        ob("C03", key, dF == len(bv), "%d bytes are written but the location counter advances by %r%s" % (len(bv), dF, vs()), where)
        ob("C03", key + "/addr", dA == len(bv), "%d bytes are written but an address pass advances by %r%s" % (len(bv), dA, vs()), where)
        if "rel" in forms:
            d = sub(sub(v, pc), 2)
            if len(bv) == 2 or len(bv) == 3 and mn[:3] in ("bbr", "bbs"):
                if mn[:3] in ("bbr", "bbs"):
                    ob("C03", "%s/zero-page-operand" % mn, len(bv) == 3, "%s is three bytes long (opcode, zero page address, displacement); %d are written" % (mn, len(bv)), where)
                ob("C01", key, op == forms["rel"], "short branch %s has opcode $%02X, published $%02X" % (mn, op, forms["rel"]), where)
                want = bits(st, d, 0, 8)
                ob("C05", key, self.same(st, bv[1], want, 8), "displacement byte is %r, expected %r" % (bv[1], want), where)
                rs = inter(st.rset(d), compl(((-128, 127),)))
                ob("C05", key + "/range", not rs, "a short branch is emitted for displacement %s" % (rs,), where)
                return
            rs = inter(st.rset(d), ((-128, 127),))
            ob("C05", key + "/short", not rs, "the long form is used for displacement %s" % (rs,), where)
            inv = INVERSE.get(mn)
            want = [T[inv]["rel"] if inv else None, 3, 0x4C, bits(st, v, 0, 8), bits(st, v, 8, 8)]
            ok = inv is not None and len(bv) == 5 and all(self.same(st, x, y, 8) for x, y in zip(bv, want))
            ob("C06", key, ok, "emitted %s, expected %s" % (self.show(bv), self.show(want) if inv else "a rejection (no opposite condition exists)"), where)
            rs = inter(st.rset(v), compl((FIT[2],)))
            ob("C07", key, not rs, "jump target %s does not fit two bytes" % (rs,), where)
            return
        md = [m for m, c in forms.items() if c == op]
        ob("C01", key, bool(md), "opcode $%02X is not one of %s %s (%s)" %
           (op, mn, syn, ", ".join("%s=$%02X" % x for x in forms.items())), where)
        allm = [m for m, c in T.get(mn, {}).items() if c == op]
        ob("C04", key, bool(md), "form %s is used for operand syntax %s" % (allm or "$%02X" % op, syn), where)
        if not md: return
        n = isa.BYTES[md[0]]
        lk = key + "/len" if md[0] != "zpi" else "65c02/%s/(zp)/%d-bytes" % (mn, len(bv))
        ob("C03", lk, len(bv) == 1 + n, "%s in mode %s is %d bytes long, %d are written%s" % (mn, md[0], 1 + n, len(bv), vs()), where)
        if len(bv) != 1 + n or n == 0: return
        ob("C03", key + "/lo", self.same(st, bv[1], bits(st, v, 0, 8), 8), "first operand byte is %r, expected %r" % (bv[1], bits(st, v, 0, 8)), where)
        if n == 2:
            ob("C03", key + "/hi", self.same(st, bv[2], bits(st, v, 8, 8), 8), "second operand byte is %r, expected %r" % (bv[2], bits(st, v, 8, 8)), where)
        if md[0] in ("zp", "zpx", "zpy", "zpi", "izx", "izy"):
            rs = inter(st.rset(v), compl(((0, 255),)))
            ob("C04", key + "/fits", not rs, "the one-byte form %s is used for operand %s" % (md[0], rs), where)
        rs = inter(st.rset(v), compl((FIT[n],)))
        ob("C07", key, not rs, "operand %s does not fit %d byte(s) and is truncated without an error" % (rs, n), where)
    def same(self, st, a, b, w): return same_bits(st, a, b, w)
    def show(self, l): return " ".join("%02X" % x if isinstance(x, int) else repr(x) for x in l)

_G = {}
def _work(job):
    ctx, S = _G["ctx"], _G["S"]
    W = Sweep(ctx, S, _G["listing"])
    err = None
    try:
        for cpu, ill, mn, syn in job: W.run(cpu, ill, mn, syn)
    except _ai.AnalysisError as e: err = "AnalysisError: %s (%s)" % (e, job[0])
    I = S.I
    return W.out, W.paths, I.analysed, I.callsites, I.branches, I.loops_done, I.steps, err

def run(ctx, prop, prefix="", listing=False):
    if ctx.mod is None: ctx.load(isa.probes() + PROBES)
    S = scen.Scn(ctx)
    _G["ctx"], _G["S"], _G["listing"] = ctx, S, listing
    if listing:
        del S.I.models["generate_list_node"]
        chartext.install(S.I)
        S.set(S.base, "current_file_name", S.text(S.base, "a.asm"))
    combos = [(cpu, ill, mn, syn) for cpu in ("6502", "65c02") for ill in (0, 1) for mn in isa.ALL for syn in SYNTAX]
    k = 60
    jobs = [combos[i::k] for i in range(k)]
    paths = 0
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for out, np, an, cs, br, lo, steps, err in pool.imap_unordered(_work, jobs):
            if err: raise Broken(err)
            paths += np
            I = S.I
            I.analysed |= an; I.callsites |= cs; I.branches |= br; I.loops_done |= lo; I.steps += steps
            for p, key, ok, d, w in out:
                if p == prop: ctx.ob(prefix + key, ok, d, w)
    ctx.extra["expansion_paths"] = paths
    ctx.extra["combinations"] = len(combos)
    ctx.need(paths, "expansion of an instruction")
