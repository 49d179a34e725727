"""C06: out-of-range branches."""
from .common import *
from . import isweep
EXPLANATION = ("Abstract interpretation of opcode_node and expand_node (LLVM IR of /repo's current sources, as linked) from the state "
               "reset_lex produces, for every CPU, illegal switch, instruction and operand syntax, with the operand value, the location "
               "counter, the origin and the image length symbolic: constructor, address pass, writing pass, then both again with new "
               "values; and, for every form, with a plain, local or anonymous label or an expression of one as operand. On every path that writes the long form the five bytes must be inverse opcode, 3, JMP, low and high byte of the original target; without an opposite condition the path must report an error; the second expansion of the same node must satisfy the same rule.")
ASSUMPTIONS = ["the operand expression evaluates to one value per expansion (expressions are property C24)",
               "the image has been started (first write and header: property C09)", "the listing code is summarised (property C28)"]
def run(ctx):
    ctx.rule = 'long branch = inverse(cond) +3; jmp target; repeated expansion obeys the same rule'
    isweep.run(ctx, 'C06')
