"""C26: no expression value can crash the assembler."""
from .common import *
from . import exprs, data
EXPLANATION = ("Abstract interpretation of every operator handler (LLVM IR of /repo's current sources) on symbolic 32-bit operands with the "
               "path conditions in force at each division, remainder and shift instruction that is reached; the data statements that use expression values are followed in the same way.")
ASSUMPTIONS = []
def run(ctx):
    ctx.rule = "at every division: divisor set excludes 0 and (minimum, -1) is excluded; at every shift: amount within the word"
    ctx.load(sorted(set(data.PROBES + exprs.PROBES)))
    X = exprs.Exprs(ctx)
    for op in exprs.BINARY + exprs.UNARY:
      for kinds in exprs.kinds(op):
        X.hazards = []
        outs = X.apply(op, kinds)
        ctx.need(len(outs), "outcome of operator " + op)
        name = exprs.SHOW.get(op, op) + ("" if kinds[0] == kinds[1] == "con" else "/" + ",".join(kinds if op in exprs.BINARY else kinds[:1]))
        for w, what, rs in X.hazards: ctx.ob("operator %s/%s" % (name, what.split()[0]), False, "%s (%s)" % (what, rs), w)
        ctx.ob("operator " + name, not X.hazards, X.hazards[0][1] if X.hazards else "", X.hazards[0][0] if X.hazards else "")
        if X.S.I.exits: ctx.ob("operator %s/ends" % name, False, "the assembler is left by exit", "expand.cc")
        X.S.I.exits.clear()
    data.run(ctx, 'C26')
