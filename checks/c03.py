"""C03: an instruction occupies exactly the bytes it emits."""
from .common import *
from . import isweep
EXPLANATION = ("Abstract interpretation of opcode_node and expand_node (LLVM IR of /repo's current sources, as linked) from the state "
               "reset_lex produces, for every CPU, illegal switch, instruction and operand syntax, with the operand value, the location "
               "counter, the origin and the image length symbolic: constructor, address pass, writing pass, then both again with new "
               "values; and, for every form, with a plain, local or anonymous label or an expression of one as operand. The sequence of bytes handed to fwrite is compared with the published length of the form chosen, with the low/high bytes of the operand and with the advance of the location counter in both passes.")
ASSUMPTIONS = ["the operand expression evaluates to one value per expansion (expressions are property C24)",
               "the image has been started (first write and header: property C09)", "the listing code is summarised (property C28)"]
def run(ctx):
    ctx.rule = 'advance(address pass) == advance(writing pass) == bytes written == published length; operand bytes low first'
    isweep.run(ctx, 'C03')
