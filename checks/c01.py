"""C01: opcode selection agrees with the published instruction sets."""
from .common import *
from .common import _ai
from . import isa, isweep
EXPLANATION = ("Abstract interpretation of get_op_code (LLVM IR of /repo's current sources) for every combination of CPU, "
               "illegal-instruction switch, instruction and addressing mode; the value on every path is compared with an "
               "independently written opcode matrix. Arguments outside both ranges are analysed as unknown integers. "
               "The CPU and illegal switches are followed from the command line options to the variables the lookup reads.")
ASSUMPTIONS = ["enumerator _<mnemonic> denotes that instruction (the mapping from spelling to enumerator is property C02)"]

def run(ctx):
    ctx.rule = "for all cpu, illegal, instruction, mode: every path of get_op_code returns the published opcode or -1"
    ctx.load(isa.probes() + isweep.PROBES)
    P = ctx.P
    fn = ctx.fn("get_op_code")
    I = ctx.interp('init')
    cpuv = {"6502": P("cpu_6502"), "65c02": P("cpu_65C02")}
    where = "%s:%s (get_op_code)" % (fn.file, fn.line)
    I32 = 4
    def state(cpu, ill):
        st = _ai.State()
        c = I.gptr("cpu_mode"); st.wcells(c.o)[0] = (4, cpuv[cpu])
        a = I.gptr("allow_illegal_op_codes"); 
        v = 0 if ill == 0 else fresh("illegal_flag", 32, 1, (1 << 31) - 1)
        st.wcells(a.o)[0] = (4, v)
        return st
    for cpu in ("6502", "65c02"):
        for ill in (0, 1):
            for mn in isa.ALL:
                for md, en in isa.MODES.items():
                    outs = I.call(fn, [P("_" + mn), P(en)], state(cpu, ill))
                    want = isa.acceptable(cpu, ill, mn, md)
                    got = sorted(set(repr(r) for _, r in outs))
                    ok = bool(outs) and all(isinstance(r, int) and r in want for _, r in outs)
                    ctx.ob("%s%s/%s/%s" % (cpu, "+illegal" if ill else "", mn, md), ok,
                           "" if ok else "expected %s, the code yields %s" %
                           (" or ".join("-1 (rejected)" if w < 0 else "$%02X" % w for w in sorted(want)), ", ".join(got)), where)
            # out-of-range arguments
            for nm, ia, ma in (("mode-too-large", None, fresh("mode", 32, P("max_addressing_mode"), (1 << 31) - 1)),
                               ("mode-negative", None, fresh("mode", 32, -(1 << 31), -1)),
                               ("instruction-too-large", fresh("instr", 32, P("_maxOpcode"), (1 << 31) - 1), None),
                               ("instruction-negative", fresh("instr", 32, -(1 << 31), -1), None)):
                outs = I.call(fn, [P("_lda") if ia is None else ia, P("a") if ma is None else ma], state(cpu, ill))
                ok = bool(outs) and all(r == -1 for _, r in outs)
                ctx.ob("%s%s/%s" % (cpu, "+illegal" if ill else "", nm), ok, "not rejected: " + repr([r for _, r in outs]), where)
    # from the statement to the image: what the grammar can pass through constructor and expander
    isweep.run(ctx, "C01", "image/")
