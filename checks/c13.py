"""C13: every pass starts from the same assembler state."""
from .common import *
from .common import _ai
from . import scen, driver, graph, labels, c23
from engine.llvm import Ty
EXPLANATION = ("The set of variables a pass can change is computed over the call graph below the parser (LLVM IR of /repo's current sources: stores, and addresses that leave a "
               "function). assemble() with the real parse_pass and reset code is followed by abstract interpretation; the parser is replaced by an arbitrary effect on all these "
               "variables (numbers become unknown, texts other texts, stacks any depth). At the moment the parser is entered in the second and in the final pass, every variable "
               "of the set must hold the value it had when the first pass entered it; deliberately carried state and variables that are always set before use are listed by name.")
ASSUMPTIONS = ["what flex itself keeps about its buffer is reset by yyrestart, as generated"]
# carried over on purpose (the property's list)
CARRIED = {"symbol_dictionary": "symbol values", "plus_symbol_table": "anonymous labels", "plus_symbol_table_index": "anonymous labels", "plus_symbol_table_size": "anonymous labels",
           "minus_symbol_table": "anonymous labels", "minus_symbol_table_index": "anonymous labels", "minus_symbol_table_size": "anonymous labels",
           "output_file_format": "the output format", "pass": "count of passes", "final_pass": "final-pass flag"}
# set before every use, or only used for messages or as a constant table
SCRATCH = {"yylval": "set by the scanner with each token", "yychar": "set by yyparse on entry", "yynerrs": "set by yyparse on entry", "yytext": "flex", "yyleng": "flex", "yyout": "flex",
           "yyin": "opened for each file", "data_size": "set by every data statement before its items", "warning_count": "not used for decisions",
           "expansion_type": "set before each use", "Debug_AddList": "debugging", "Debug_Bison": "debugging", "Debug_Token": "debugging",
           "path": "work area of the file search", "list_head": "listing rows are added in the final pass only (C28)"}
FLEX = ("yy_c_buf_p", "yy_n_chars", "yy_hold_char", "yy_state_buf", "yy_state_ptr", "yy_full_match", "yy_buffer_stack", "yy_buffer_stack_max", "yy_buffer_stack_top",
        "yy_did_buffer_switch_on_eof", "yy_lp", "yy_init", "yy_more_len", "yy_more_flag", "yy_looking_for_trail_begin", "yy_full_lp", "yy_full_state")

def modset(ctx):
    G = graph.Graph(ctx.mod)
    fns = G.below(ctx.fn("yyparse"))
    ro = {g.name for g in scen.readonly_globals(ctx.mod)}
    out = {}
    for f, x in G.sites(fns):
        for o in x.ops:
            g = graph.address(o)
            if g is None or g.const or g.decl or g.name in ro or x.op in ('load', 'icmp'): continue
            out.setdefault(g.name, (g, "%s:%d (%s)" % (x.file, x.line, f.base)))
    return out, fns

def run(ctx):
    ctx.rule = "variable of the mod set at the parser's entry in pass n == at its entry in pass 1, unless carried on purpose or set before use"
    D = driver.Driver(ctx); S, I = D.S, D.I
    D.search = (None,)
    I.unroll_decided = 5000         # the dictionary is walked bucket by bucket
    mods, fns = modset(ctx)
    STACKS = tuple(c23.stack_globals(ctx))
    even = sorted(g.base for g, w in mods.values() if graph.balanced(ctx.mod, g, fns))
    mods = {k: v for k, v in mods.items() if v[0].base not in even}
    ctx.extra["left_as_found_by_every_function"] = even
    for n_ in STACKS:
        g = ctx.mod.gv(n_)
        if g is not None: mods.setdefault(g.name, (g, "pass.cc (reset_lex)"))
    ctx.need(len(mods) - 20, "variables a pass can change")
    ctx.extra["variables_a_pass_changes"] = sorted(g.base for g, w in mods.values())
    ctx.extra["functions_below_the_parser"] = sum(1 for f in fns if not f.decl)
    INT = {1: scen.I8, 2: Ty('i', 16, 2, None), 4: scen.I32}
    def value(st, g):
        if g.size in INT: return I.load(st, Ptr(I.gobj(g).id, 0), INT[g.size])
        if g.size == 8: return I.load(st, Ptr(I.gobj(g).id, 0), scen.PT)
        return None
    local = {g.name for g, w in mods.values() if graph.set_before_use(ctx.mod, g)}
    ctx.extra["set_before_use_in_every_function"] = sorted(ctx.mod.gv(n).base if ctx.mod.gv(n) else n for n in local)
    def skip(g): return g.base in CARRIED or g.base in SCRATCH or g.base in FLEX or g.name in local
    def depth(st, v):
        if v == NULL or isinstance(v, Ptr) and v.o is None: return -1
        inst = S.rd(st, v, "stack", "instance", scen.PT)
        return S.rd(st, inst, "instance_data", "index", scen.I64)
    first = {}; snap = {}; which = [None]
    checked = set()
    def one(fn, args, st):
        r = I.call(ctx.fn(fn), args, st)
        if len(r) != 1: raise Broken("%s has %d outcomes" % (fn, len(r)))
        return r[0]
    def disturb(st):
        # a macro defined in this pass
        st, y = one("add_symbol", [S.text(st, "amacro%d" % len(st.tags.get(('macro',), ())))], st)
        S.wr(st, y, "symbol_table", "is_macro_name", 1, scen.I8); S.wr(st, y, "symbol_table", "is_initialized", 1, scen.I8)
        st.tags[('macro',)] = st.tags.get(('macro',), ()) + (y,)
        for n, (g, w) in mods.items():
            if g.base in CARRIED or g.base in FLEX or g.base in ("yyin", "yyout", "final_pass"): continue
            p = Ptr(I.gobj(g).id, 0)
            if g.base in STACKS:
                if g.base != which[0]: continue
                v = value(st, g)
                if v == NULL or v.o is None:
                    st, v = one("create_stack", [8], st)
                    st.wcells(p.o)[0] = (8, v)
                inst = S.rd(st, v, "stack", "instance", scen.PT)
                S.wr(st, inst, "instance_data", "index", fresh("depth of " + g.base, 64, -1, 1000), scen.I64)
            elif g.base == "error_count" or g.base == "sym_value_changed": pass
            elif g.size in INT:
                st.wcells(p.o)[0] = (g.size, fresh(g.base, 8 * g.size))
            elif g.size == 8:
                o = I.alloc("left in " + g.base, 'heap', 4096, 'havoc'); st.nonnull = st.nonnull | {o.id}
                if g.base not in ("head_node", "current_node", "internal_buffer", "symbol_dictionary", "macro_dict") and "dictionary" not in g.base:
                    st.wcells(p.o)[0] = (8, Ptr(o.id, 0))
        return st
    def compare(st, what):
        for n, (g, w) in mods.items():
            if skip(g): continue
            checked.add(g.base)
            v = value(st, g); v0 = first[n]
            key = "%s/%s" % (what, g.base)
            if g.base in STACKS:
                d = depth(st, v)
                ctx.ob(key, d == v0 or isinstance(d, Lin) and st.rset(d) == ((v0, v0),), "the stack enters the pass with depth %r, the first pass began with %r" % (d, v0), w)
            elif g.size in INT:
                ctx.ob(key, v == v0 or same_bits(st, v, v0, 8 * g.size), "the variable enters the pass as %r, the first pass began with %r" % (v, v0), w)
            elif g.size == 8 and g.base in ("head_node", "current_node"):
                ctx.ob(key, isinstance(v, Ptr) and v.o is not None and v.o not in st.freed, "no parse tree", w)
            elif g.size == 8:
                same = v == v0 or isinstance(v, Ptr) and isinstance(v0, Ptr) and v.o is not None and v0.o is not None and v.o not in st.freed and (dom_const(st, v) is not None and dom_const(st, v) == dom_const(st, v0))
                kept = isinstance(v, Ptr) and v.o is not None and dom_name(v) in ("internal_buffer", "dict")
                ctx.ob(key, same or rebuilt(st, g, v, v0), "the variable enters the pass as %r, the first pass began with %r" % (v, v0), w)
            else: ctx.ob(key, False, "not compared", w)
        for y in st.tags.get(('macro',), ()):
            ctx.ob(what + "/macro definitions", S.rd(st, y, "symbol_table", "is_macro_name", scen.I8) == 0, "a macro of the pass before is still defined", "sym.cc")
    from engine.libc import cstr
    def dom_const(st, v): return cstr(I, st, v)
    def dom_name(v):
        from engine import dom
        return dom.OBJS[v.o].name
    def rebuilt(st, g, v, v0):
        """built anew from nothing: a dictionary or buffer that was not there when it was left"""
        return g.base in ("expand_operator_table_dictionary", "expand_table_dictionary") and isinstance(v, Ptr) and v.o is not None and v.o not in st.freed
    n = [0, 0]
    def yyparse(I, st, a, inst):
        final = S.get(st, "final_pass")
        stage = st.tags.get(('stage',), 0)
        if stage == 0:
            for m_, (g, w) in mods.items():
                first[m_] = depth(st, value(st, g)) if g.base in STACKS else value(st, g)
        elif final == 0:
            n[0] += 1; compare(st, "second pass")
        else:
            n[1] += 1; compare(st, "final pass")
            return None
        s = disturb(st)
        if s is not st: raise _ai.AnalysisError("the disturbed state is a new one")
        if stage == 0: S.set(st, "sym_value_changed", 3)
        st.tags[('stage',)] = stage + 1
        return None
    I.models["yyparse"] = yyparse
    I.models["unresolved_symbol_count"] = lambda I, st, a, inst: 0
    w = ["pasm", "-o", "out.bin", "a.asm"]
    for which[0] in (None,) + STACKS:
        if which[0] and ctx.mod.gv(which[0]) is None: continue
        D.main(D.start(), w)
        ctx.need(n[0], "second passes"); ctx.need(n[1], "final passes")
    I.exits.clear()
    ctx.extra["compared"] = sorted(checked)
    for d in (CARRIED, SCRATCH):
        for k, v in d.items(): ctx.assumptions.append("%s: %s" % (k, v))
