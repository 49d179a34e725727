"""C07: no silent truncation."""
from .common import *
from . import isweep, isa, data, exprs
EXPLANATION = ("Abstract interpretation of opcode_node and expand_node (LLVM IR of /repo's current sources, as linked) from the state "
               "reset_lex produces, for every CPU, illegal switch, instruction and operand syntax, with the operand value, the location "
               "counter, the origin and the image length symbolic: constructor, address pass, writing pass, then both again with new "
               "values; and, for every form, with a plain, local or anonymous label or an expression of one as operand. On every path that reports no error the facts must confine the operand to what the written field can hold. Data items and fill values are followed in the same way.")
ASSUMPTIONS = ["the operand expression evaluates to one value per expansion (expressions are property C24)",
               "the image has been started (first write and header: property C09)", "the listing code is summarised (property C28)"]
def run(ctx):
    ctx.rule = 'no error implies operand fits the field'
    ctx.load(sorted(set(isa.probes() + isweep.PROBES + data.PROBES + exprs.PROBES)))
    isweep.run(ctx, 'C07')
    data.run(ctx, 'C07', 'data ')
