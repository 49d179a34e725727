"""C20: a file that cannot be opened is diagnosed, never used."""
from .common import *
from .common import _ai
from . import scen, driver, data, exprs, labels, isa, graph
from engine import libc, dom
from engine.llvm import FuncRef
EXPLANATION = ("Abstract interpretation (LLVM IR of /repo's current sources) of every operation that opens a file - source files in a pass, .include, .load, output, symbol, list "
               "and log file, the sources read again for the listing - with every single attempt to open allowed to fail, with and without search directories. On every path on "
               "which a file remains unopened an error must have been reported or the assembler left with a failure status, and no null file may reach a stdio function or a "
               "memory access. The calls of fopen in the program are enumerated; those not reached are listed.")
ASSUMPTIONS = ["fopen returns null on failure; the log stream tells by is_open()"]
PROBES = ["E(INC)", "E(LOAD)"]

def prep_plain(S, D):
    st = D.start()
    S.set(st, "current_file_name", S.text(st, "a.asm")); S.set(st, "yylineno", 3)
    S.set(st, "directories", NULL); S.set(st, "final_pass", 0)
    return st

def run(ctx):
    ctx.rule = "path with an unopened file => error reported or failure status, and no use of the null file"
    ctx.load(sorted(set(PROBES + driver.Driver.PROBES + labels.PROBES + data.PROBES + exprs.PROBES)))
    D = driver.Driver(ctx); S, I = D.S, D.I
    I.fopen_null = True; I.unroll = 12
    reached = set(); failed = [0]; opened = [0]
    def judge(key, s, reported, where=""):
        evs = s.events()
        last = None
        for e in evs:
            if e[0] in ('fopen', 'fopenfail'): last = e
            if e[0] == 'fopen': opened[0] += 1; reached.add(e[4])
            if e[0] == 'fopenfail': reached.add(e[1])
        null = [e for e in evs if e[0] == 'nullderef']
        if any(e[0] == 'fopenfail' for e in evs):
            ctx.ob(key + "/not used", not null, "a file that could not be opened is used (%s)" % (null and null[0][2]), null[0][1] if null else where)
        if last is not None and last[0] == 'fopenfail':
            failed[0] += 1
            ctx.ob(key, reported, "the file cannot be opened and nothing is reported", last[1])
    def up(s, e0): return s.rng(sub(S.get(s, "error_count"), e0))[0] >= 1
    def exits(key):
        for s, c, w, stk in I.exits: judge(key, s, driver.status_is_failure(s, c), w)
        I.exits.clear()
    # whole runs: every output file, the log, the source files
    saved = dict(I.models)
    I.models["yyparse"] = lambda I, st, a, inst: 0
    I.models["unresolved_symbol_count"] = lambda I, st, a, inst: 0
    def is_open(I, st, a, inst):
        t = st.tags.get(('log',))
        if t is not None: return t
        s = st.fork(); s.forks += 1; st.forks += 1
        st.tags[('log',)] = 0; s.tags[('log',)] = 1
        return [(st, 0), (s, 1)]
    for f in ctx.mod.functions.values():
        if "is_open" in f.name: I.models[f.name] = is_open
    lines = {" ".join(w[1:]): w for w in driver.Driver.LINES}; lines["two sources"] = ["pasm", "a.asm", "b.asm"]
    logs = 0
    for k, w in lines.items():
        I.exits.clear()
        outs = [(s, driver.status_is_failure(s, v), "main.cc") for s, v in D.main(D.start(), w)] + [(s, driver.status_is_failure(s, c), wh) for s, c, wh, stk in I.exits]
        I.exits.clear()
        for s, bad, wh in outs:
            # an attempt is final when the next one is for another file
            evs = [e for e in s.events() if e[0] in ('fopen', 'fopenfail')]
            def name(e): return e[2] if e[0] == 'fopen' else e[3]
            fails = [e for k, e in enumerate(evs) if e[0] == 'fopenfail' and (k + 1 == len(evs) or name(evs[k + 1]) in D.words)]
            judge(k, s, bad, wh)
            for e in fails: failed[0] += 1; ctx.ob("%s/%s" % (k, e[1].split(' ')[-1]), bad, "a file cannot be opened and the assembler ends with success", e[1])
            if "-log" in w and s.tags.get(('log',)) == 0:
                logs += 1; ctx.ob("log", bad, "the log file cannot be opened and the assembler ends with success", wh)
        ctx.need(len(outs), "runs: " + k)
    ctx.need(logs, "runs without log file")
    I.models.clear(); I.models.update(saved)
    I.models.pop("yyerror", None)
    def use(name, result):
        def f(I, st, a, inst):
            if not isinstance(a[0], Ptr) or I.nullness(st, a[0]) is True: st.event('nullderef', I.where(inst), name)
            return result(st)
        I.models[name] = f
    # the content does not matter here: an empty binary file, a text file of one line
    use("ftell", lambda st: 0)
    def feof(st):
        st.tags[('feof',)] = st.tags.get(('feof',), 0) + 1
        return int(st.tags[('feof',)] > 1)
    use("feof", feof)
    # search directories, include, load, listing
    for dirs in (None, "inc;lib/", ";", "inc; lib;"):
        def prep(final):
            st = D.start()
            S.set(st, "current_file_name", S.text(st, "a.asm")); S.set(st, "yylineno", 3)
            S.set(st, "directories", S.text(st, dirs) if dirs else NULL)
            S.set(st, "final_pass", final)
            return st
        for final in (0, 1):
            for op, what in (("INC", "include"), ("LOAD", "load")):
                st = prep(final)
                st, n = S.one("string_node", [S.text(st, '"data.inc"')], st)
                st, n = S.one("operator_node", [ctx.P(op), 1, n], st)
                e0 = S.get(st, "error_count"); st.ev = None; I.exits.clear()
                key = "%s/%s%s" % (what, "directories " + dirs if dirs else "plain", "/writing pass" if final else "")
                for s, _ in S.call("expand_node", [n], st): judge(key, s, up(s, e0))
                exits(key)
        st = prep(1)
        key = "listing/%s" % ("directories " + dirs if dirs else "plain")
        e0 = S.get(st, "error_count"); st.ev = None
        name = S.text(st, "a.asm")
        for s, v in S.call("get_file_line", [name, 1], st):
            judge(key, s, up(s, e0))
            # asked again for the same file
            for t, _ in S.call("get_file_line", [name, 2], s): judge(key + "/again", t, up(t, e0))
        exits(key)
    # an include inside many others
    st = prep_plain(S, D)
    for depth in range(1, 41):
        st, n = S.one("string_node", [S.text(st, '"data.inc"')], st)
        st, n = S.one("operator_node", [ctx.P("INC"), 1, n], st)
        e0 = S.get(st, "error_count"); st.ev = None; I.exits.clear()
        nxt = None
        for s, _ in S.call("expand_node", [n], st):
            judge("include/at depth", s, up(s, e0))
            if any(e[0] == 'fopen' for e in s.events()): nxt = s
        exits("include/at depth")
        if nxt is None: break
        st = nxt
    ctx.need(depth - 39, "nested includes")
    ctx.need(failed[0], "failing opens"); ctx.need(opened[0], "successful opens")
    sites = {"%s:%d (%s)" % (x.file, x.line, f.base) for f, x in graph.Graph(ctx.mod).sites(ctx.mod.functions.values())
             if x.op in ('call', 'invoke') and isinstance(x.x, FuncRef) and x.x.f.base in ("fopen", "fopen64", "freopen", "fdopen")}
    ctx.extra["fopen_sites"] = sorted(sites); ctx.extra["reached"] = sorted(reached); ctx.extra["not_reached"] = sorted(sites - reached)
    ctx.extra["failing_paths"] = failed[0]
