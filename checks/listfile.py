"""The listing file: every history of printing switches, code rows and included files (up to a
length) through the real expander and recorder, then the real writer of the listing file; the rows
that reach the file are those recorded while printing was on, each once, in order."""
import itertools
from .common import *
from .common import _ai
from . import scen, chartext, isa
from engine import libc
from engine.libc import cstr
PROBES = sorted(set(isa.probes() + chartext.PROBES + ["E(max_line_len)"]))

def run(ctx, length=4):
    S = scen.Scn(ctx)
    I = S.I; P = ctx.P
    del I.models["generate_list_node"]
    chartext.install(I)
    I.unroll_decided = 5000; I.unroll = 5000
    # source files of 12 lines
    def fgets(I, st, a, inst):
        c = st.tags.get(('read', a[2].o), 0); st.tags[('read', a[2].o)] = c + 1
        if c >= 12: return NULL
        libc.put_const(I, st, a[0], "source line %d\n" % (c + 1)); return a[0]
    I.models["fgets"] = fgets
    I.models["feof"] = lambda I, st, a, inst: int(st.tags.get(('read', a[0].o), 0) > 12)
    ctx.fn("open_file")
    I.models["open_file"] = lambda I, st, a, inst: S.file(I, "source")
    def printer(I, st, f, fmt, args, inst):
        st.event('printed', f, [cstr(I, st, x) if isinstance(x, Ptr) else None for x in args] + [fmt], I.where(inst))
    out = S.file(I, "listing")
    paths = 0
    def start():
        st = S.start()
        b = I.alloc("line buffer", 'heap', P("max_line_len"), 'undef'); st.nonnull = st.nonnull | {b.id}
        S.set(st, "internal_buffer", Ptr(b.id, 0))
        S.set(st, "final_pass", 1); S.set(st, "output_file", NULL); S.set(st, "list_head", NULL)
        if ctx.mod.gv("source_file_list"): S.set(st, "source_file_list", NULL)
        S.set(st, "current_file_name", S.text(st, "a.asm")); S.set(st, "yylineno", 1)
        S.set(st, "program_counter", 0x1000)
        return st
    def listing(st): return ["".join(chr(c) for c in t) for t in chartext.listing(S, st)]
    def history(plan):
        nonlocal paths
        st = start(); on = True; want = []; files = []
        def line(): S.set(st, "yylineno", S.get(st, "yylineno") + 1)
        for j, op in enumerate(plan):
            if op in 'cC':
                if op == 'c' or j == 0: line()
                st, n = S.one("opcode_node", [P("_nop"), P("i"), 0], st)
                before = len(listing(st))
                st, _ = S.one("expand_node", [n], st)
                rows = listing(st)[before:]
                if len(rows) != 1: return "an instruction has %d rows" % len(rows)
                if on: want.append(rows[0])
            elif op in 'nf':
                line()
                st, n = S.one("print_state_node", [int(op == 'n')], st)
                st, _ = S.one("expand_node", [n], st)
                on = op == 'n'
            elif op == '(':
                line(); files.append((S.get(st, "current_file_name"), S.get(st, "yylineno")))
                st, _ = S.one("generate_list_node", [NULL], st)
                S.set(st, "current_file_name", S.text(st, "inc%d.asm" % len([1 for x in plan[:j] if x == '(']))); S.set(st, "yylineno", 0)
                st, _ = S.one("generate_list_node", [NULL], st)
            else:
                st, _ = S.one("generate_list_node", [NULL], st)
                f, l = files.pop(); S.set(st, "current_file_name", f); S.set(st, "yylineno", l)
                st, _ = S.one("generate_list_node", [NULL], st)
        if S.get(st, "list_head") is NULL: return None
        mark = st.ev; I.printer = printer
        try: ends = S.call("generate_list_file", [out], st)
        finally: I.printer = None
        bad = None
        for s, _ in ends:
            paths += 1
            ev = [e for e in scen.ev_since(s, mark) if e[0] == 'printed']
            got = [t for e in ev for t in e[2] if isinstance(t, str) and t.startswith("$") and "%" not in t]
            if got != want: bad = "the rows recorded while printing was on are %s, the file shows %s" % (want, got)
        return bad if ends else "the listing is not written"
    plans = [("".join(p)) for n in range(1, length + 1) for p in itertools.product("cCnf", repeat=n) if 'c' in p or 'C' in p]
    plans += ["(c)c", "c(c)c", "c(f)c", "cf(n)c", "f(c)nc", "c(cC)cC", "(c)(c)c", "c(c(c)c)c", "c(cfc)cnc", "cf(cnc)c", "c(n)c", "()c", "c()c", "(f)nc", "(n)c"]
    n = 0
    for plan in plans:
        w = history(plan); n += 1
        ctx.ob("listing file " + " ".join({"c": "line", "C": "same", "n": "on", "f": "off", "(": "[", ")": "]"}[x] for x in plan),
               w is None, w or "", "genlist.cc (generate_list_file)")
    I.exits.clear()
    ctx.extra["listing histories"] = n
    ctx.need(paths, "listing histories")
