"""C04: short and long addressing forms."""
from .common import *
from . import isweep
EXPLANATION = ("Abstract interpretation of opcode_node and expand_node (LLVM IR of /repo's current sources, as linked) from the state "
               "reset_lex produces, for every CPU, illegal switch, instruction and operand syntax, with the operand value, the location "
               "counter, the origin and the image length symbolic: constructor, address pass, writing pass, then both again with new "
               "values; and, for every form, with a plain, local or anonymous label or an expression of one as operand. The form is identified by the opcode byte written; it must belong to the family of the operand syntax, and a one-byte form requires the facts of the path to confine the operand to 0..255; a symbol without value must reserve the long form.")
ASSUMPTIONS = ["the operand expression evaluates to one value per expansion (expressions are property C24)",
               "the image has been started (first write and header: property C09)", "the listing code is summarised (property C28)"]
def run(ctx):
    ctx.rule = 'form in family(syntax) and one-byte form implies operand in 0..255 and unknown operand implies long form'
    isweep.run(ctx, 'C04')
