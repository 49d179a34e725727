"""C05: relative branches."""
from .common import *
from . import isweep
EXPLANATION = ("Abstract interpretation of opcode_node and expand_node (LLVM IR of /repo's current sources, as linked) from the state "
               "reset_lex produces, for every CPU, illegal switch, instruction and operand syntax, with the operand value, the location "
               "counter, the origin and the image length symbolic: constructor, address pass, writing pass, then both again with new "
               "values; and, for every form, with a plain, local or anonymous label or an expression of one as operand. On every path that writes a two-byte branch the second byte must be the symbolic low byte of target-(address+2) and the path facts must confine that difference to -128..127; paths with the long form or an error must exclude that range.")
ASSUMPTIONS = ["the operand expression evaluates to one value per expansion (expressions are property C24)",
               "the image has been started (first write and header: property C09)", "the listing code is summarised (property C28)"]
def run(ctx):
    ctx.rule = 'short branch <=> displacement in -128..127, byte = displacement'
    isweep.run(ctx, 'C05')
