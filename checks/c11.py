"""C11: a reported error always ends in a failure status."""
from .common import *
from .common import _ai
from . import scen, driver
from engine import libc, dom
from engine.llvm import Reg, FuncRef
EXPLANATION = ("Abstract interpretation of main() (LLVM IR of /repo's current sources) for command lines of every kind, with a pass as an arbitrary source of errors (the pass loop "
               "is generalised, the real parse_pass is decided separately to count exactly the errors reported in it); on every path to a return or exit, the status must be "
               "non-zero unless the facts of the path imply that nothing was reported. Every error number is reported through the real functions and must be counted. Over the "
               "call graph below the parser, the error count may only be increased, and every exit status must be a failure.")
ASSUMPTIONS = ["the status is what exit() or the return of main passes, modulo 256"]
BAD = [["pasm"], ["pasm", "-o"], ["pasm", "-o", "x.bin", "-o", "y.bin", "a.asm"], ["pasm", "-d", "foo", "70000", "a.asm"], ["pasm", "-d", "foo", "12x", "a.asm"],
       ["pasm", "-d", "foo"], ["pasm", "-d", "A", "1", "a.asm"], ["pasm", "-q", "a.asm"], ["pasm", "-s"], ["pasm", "-l", "a.lst", "-l", "b.lst", "a.asm"],
       ["pasm", "-i", "-i", "a.asm"], ["pasm", "-c64", "-c64", "a.asm"], ["pasm", "-65c02", "-6502", "a.asm"], ["pasm", "-dir"], ["pasm", "-?"]]

def run(ctx):
    ctx.rule = "status 0 only if nothing was reported"
    D = driver.Driver(ctx); S, I = D.S, D.I
    driver.parse_contract(ctx, D)
    saved = dict(I.models)
    D.passes()
    n = 0
    def end(w, s, v, where, what):
        tot = D.gget(s, "total"); rep = D.gget(s, "reported")
        clean = (rep == 0 or isinstance(rep, Lin) and s.rset(rep) == ((0, 0),)) and (tot == 0 or isinstance(tot, Lin) and s.rset(tot) == ((0, 0),))
        ctx.ob("%s/%s" % (" ".join(w), what), clean or driver.status_is_failure(s, v),
               "the status may be 0 (%r) after an error was reported (%s)" % (v, "by the driver" if rep != 0 else "in a pass"), where)
    I.exits.clear()
    for w, s, v in D.runs():
        n += 1; end(w, s, v, "", "return")
    for s, code, where, stk in I.exits: end(["any"], s, code, where, "exit " + where.split(" ")[-1])
    I.unroll_decided = 64
    for w in BAD:
        I.exits.clear(); m = 0
        for s, v in D.main(D.start(), w): n += 1; m += 1; end(w, s, v, "", "return")
        for s, code, where, stk in I.exits: m += 1; end(w, s, code, where, "exit")
        ctx.need(m, "ends of " + " ".join(w))
    I.exits.clear()
    ctx.extra["runs"] = n
    I.models.clear(); I.models.update(saved)
    I.models["yyerror"] = lambda I, st, a, inst: I.exec(ctx.fn("yyerror"), a, st, inst)
    numbers(ctx, D)
    below(ctx)

def numbers(ctx, D):
    """each error number counts once, with and without a parameter of any length"""
    S, I = D.S, D.I
    top = ctx.P("error_max")
    tab = ctx.mod.gv("errors")
    done = 0
    for n in range(1, top):
        st = D.start(); st.events()
        c0 = fresh("errors before", 32, 0, 1000); S.set(st, "error_count", c0)
        for par in (None, "x", "any"):
            if par == "any" and n % 8: continue
            s0 = st.fork()
            args = [n]
            if par == "any":
                o = I.alloc("parameter", 'heap', 1 << 20, 'havoc'); s0.nonnull = s0.nonnull | {o.id}
                args.append(Ptr(o.id, 0))
            elif par: args.append(S.text(s0, par))
            m = 0
            for s, _ in S.call("error2" if par else "error", args, s0):
                m += 1; done += 1
                ctx.ob("counted/%d%s" % (n, " with a parameter" if par else ""), s.rng(S.get(s, "error_count"))[0] >= 1 and s.rng(sub(S.get(s, "error_count"), c0))[0] >= 0,
                       "an error is reported but the count goes from %r to %r" % (c0, S.get(s, "error_count")))
            ctx.need(m, "outcomes of error %d" % n)
    ctx.extra["error_numbers"] = top - 1

def below(ctx):
    from . import graph
    G = graph.Graph(ctx.mod)
    fns = G.below(ctx.fn("yyparse"))
    count = ctx.mod.gv("error_count")
    if count is None: raise Broken("error count not found")
    stores = exits = 0
    for f, x in G.sites(fns):
        where = "%s:%d (%s)" % (x.file, x.line, f.base)
        if x.op == 'store' and graph.address(x.ops[1]) is count:
            stores += 1
            ctx.ob("stores/%s" % f.base, grows(f, x.ops[0], count), "the error count is overwritten while a pass is running", where)
        elif x.op in ('call', 'invoke') and isinstance(x.x, FuncRef) and x.x.f.base in ("exit", "_exit", "_Exit", "quick_exit"):
            exits += 1
            v = x.ops[0]
            ctx.ob("exits/%s:%s" % (f.base, "?" if isinstance(v, Reg) else v), isinstance(v, int) and v & 255 != 0, "exit with status %r while a pass is running" % (v,), where)
    ctx.need(stores, "stores to the error count")
    ctx.extra["functions_below_the_parser"] = sum(1 for f in fns if not f.decl)
    ctx.extra["error_count_stores"] = stores; ctx.extra["exit_calls"] = exits

def grows(f, v, g):
    """v is a load of g plus a positive constant"""
    from . import graph
    if not isinstance(v, Reg): return False
    d = {x.id: x for b in f.blocks for x in b.insts if x.id is not None}
    x = d.get(v.id)
    if x is None or x.op != 'add': return False
    for a, c in (x.ops, x.ops[::-1]):
        if isinstance(c, int) and c > 0 and isinstance(a, Reg):
            y = d.get(a.id)
            if y is not None and y.op == 'load' and graph.address(y.ops[0]) is g: return True
    return False
