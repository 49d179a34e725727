"""C08: data directives emit exactly the stated bytes and advance by as many."""
from .common import *
from . import data
EXPLANATION = ("Abstract interpretation of the data statements (data_node/string_node/operator_node, expand_node, generate_output; LLVM IR of /repo's "
               "current sources) on symbolic 32-bit values and symbolic characters, in an address pass and in the writing pass from an arbitrary position; "
               "on every error-free path the sequence of written bytes is compared with the items, and the advance of the location counter with its length.")
ASSUMPTIONS = ["lists of up to three items, strings of 0..70 characters and fill counts up to 1000 stand for all lengths", "the image position agrees with the location counter before the statement (C09)"]
def run(ctx):
    ctx.rule = "written bytes == concatenation of the items' bytes; advance (both passes) == number of written bytes"
    data.run(ctx, "C08")
