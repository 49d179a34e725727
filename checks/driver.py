"""main() on given command lines with the parser as an arbitrary source of effects."""
from .common import *
from .common import _ai
from . import scen
from engine import libc, dom

class Driver:
    PROBES = ["E(error_max)", "O(symbol_table,is_macro_name)", "O(stack,instance)", "O(instance_data,index)"]
    GHOST = {"reported": 0, "passes": 4, "err": 8, "chg": 12, "unres": 16, "counted": 20, "final": 24, "total": 28}
    def __init__(self, ctx):
        self.ctx = ctx
        from . import labels
        self.S = S = scen.Scn(ctx, sorted(set(self.PROBES + labels.PROBES)))
        self.I = I = S.I
        I.unroll_decided = 64
        I.models.pop("yymessage", None)
        M = I.models
        st = S.base
        o = I.alloc("ghost", 'heap', 64, 'undef'); st.nonnull = st.nonnull | {o.id}
        self.g = Ptr(o.id, 0)
        for k in self.GHOST: self.gset(st, k, 0)
        def quiet(I, st, a, inst): return None
        for n in ("yymessage", "yyrestart", "usage", "dump_symbols", "dump_unresolved_symbols", "dump_changed_symbols"): M[n] = quiet
        self.yyerror = ctx.fn("yyerror")
        def yyerror(I, st, a, inst):
            self.gset(st, "reported", 1)
            return I.exec(self.yyerror, a, st, inst)
        M["yyerror"] = yyerror
        def glist(I, st, a, inst):
            # may itself report that a source file cannot be read again
            s = st.fork(); s.forks += 1; st.forks += 1
            out = [(st, None)]
            for t, _ in yyerror(I, s, [NULL], inst): out.append((t, None))
            return out
        M["generate_list_file"] = glist
        def is_open(I, st, a, inst):
            s = st.fork(); s.forks += 1; st.forks += 1
            return [(st, 0), (s, 1)]
        # the log stream: opened or not
        for f in ctx.mod.functions.values():
            if "is_open" in f.name: M[f.name] = is_open
        M["open_file_stream"] = quiet
        self.search = (None, "inc;lib/")
        self.words = []
        if ctx.mod.functions.get("assemble") is not None or any(f.base == "assemble" for f in ctx.mod.functions.values()):
            real = ctx.fn("assemble")
            def assemble(I, st, a, inst):
                """with every other setting of the command line as well"""
                for n, lo, hi in (("verbose", 0, 1), ("cpu_mode", 0, 1), ("allow_illegal_op_codes", 0, 1), ("ignore_warnings", 0, 1), ("output_file_format", 0, 1)):
                    S.set(st, n, fresh(n, 32, lo, hi))
                out = []
                for d in [S.text(st, d) if d else NULL for d in self.search]:
                    s = st.fork(); s.forks += 1
                    S.set(s, "directories", d)
                    out += I.exec(real, a, s, inst)
                return out
            M["assemble"] = assemble
        M["delete_list_table"] = quiet; M["delete_file_lines"] = quiet; M["reset_file_lines"] = quiet
    def gset(self, st, k, v): self.I.store(st, Ptr(self.g.o, self.GHOST[k]), v, scen.I32)
    def gget(self, st, k): return self.I.load(st, Ptr(self.g.o, self.GHOST[k]), scen.I32)
    def start(self): return self.S.start()
    def argv(self, st, words):
        S, I = self.S, self.I
        o = I.alloc("argv", 'heap', 8 * (len(words) + 1), 'undef'); st.nonnull = st.nonnull | {o.id}
        self.words = [S.text(st, w) for w in words]
        for k, w in enumerate(self.words): I.store(st, Ptr(o.id, 8 * k), w, scen.PT)
        I.store(st, Ptr(o.id, 8 * len(words)), NULL, scen.PT)
        return Ptr(o.id, 0)
    def main(self, st, words):
        return self.S.call("main", [len(words), self.argv(st, words)], st)

    # ---------------------------------------------------------------- whole runs
    def passes(self):
        """parse_pass as any pass can be: counters as it leaves them (see parse_contract)"""
        S, I = self.S, self.I
        def parse_pass(I, st, a, inst):
            final = S.get(st, "final_pass")
            if not isinstance(final, int): raise _ai.AnalysisError("the final-pass flag is not known at the start of a pass")
            for k in ("total", "err", "chg", "unres"):
                v = self.gget(st, k)
                if isinstance(v, Lin) and st.rset(v) == ((0, 0),): self.gset(st, k, 0)
            e = fresh("errors", 32, 0, 1000); c = fresh("changes", 32, 0, 1000)
            S.set(st, "error_count", e); S.set(st, "sym_value_changed", c)
            self.gset(st, "total", add(self.gget(st, "total"), e))
            # what directives change
            S.set(st, "total_bytes_written", fresh("written", 32, 0, 65538))
            for n in ("cpu_mode", "allow_illegal_op_codes", "ignore_warnings"): S.set(st, n, fresh(n, 32, 0, 1))
            if final: self.gset(st, "final", 1)
            else:
                self.gset(st, "passes", 1); self.gset(st, "err", e); self.gset(st, "chg", c)
                self.gset(st, "unres", fresh("unresolved", 32, 0, 1000)); self.gset(st, "counted", 0)
            return None
        I.models["parse_pass"] = parse_pass
        def unres(I, st, a, inst):
            self.gset(st, "counted", 1)
            return self.gget(st, "unres")
        I.models["unresolved_symbol_count"] = unres
    # every combination of files, with the other settings arbitrary
    LINES = [["pasm"] + o + s + l + g + ["a.asm"] for o in ([], ["-o", "out.bin"]) for s in ([], ["-s", "a.sym"]) for l in ([], ["-l", "a.lst"]) for g in ([], ["-log", "x.log"])]
    def runs(self):
        """[(command line, state, result)]"""
        out = []
        # the pass loop is generalised, loops over texts are not
        from . import graph
        from engine.llvm import FuncRef
        G = graph.Graph(self.ctx.mod)
        passes = self.ctx.fn("parse_pass")
        around = {f for f in G.edges if passes in G.below(f) and f is not passes}
        self.I.unroll_decided_for = lambda fn: 2 if fn in around else 64
        for w in self.LINES:
            for s, v in self.main(self.start(), w): out.append((w, s, v))
        self.I.unroll_decided_for = None
        return out

def status_is_failure(st, v):
    """an exit status that is never 0 modulo 256"""
    if isinstance(v, int): return v & 255 != 0
    if not isinstance(v, Lin): return False
    return not inter(st.rset(_ai.bits(st, v, 0, 8)), ((0, 0),))

def parse_contract(ctx, D):
    """after a pass the counters hold exactly what this pass reported, whatever they held before"""
    S, I = D.S, D.I
    saved = dict(I.models)
    for n in ("parse_pass", "unresolved_symbol_count"): I.models.pop(n, None)
    seen = []
    def yyparse(I, st, a, inst):
        e = fresh("errors", 32, 0, 1000); c = fresh("changes", 32, 0, 1000)
        S.set(st, "error_count", add(S.get(st, "error_count"), e)); S.set(st, "sym_value_changed", add(S.get(st, "sym_value_changed"), c))
        seen.append((e, c))
        D.gset(st, "err", add(D.gget(st, "err"), e)); D.gset(st, "chg", add(D.gget(st, "chg"), c))
        return fresh("parsed", 32, 0, 2)
    I.models["yyparse"] = yyparse
    n = 0
    for final in (0, 1):
        st = D.start()
        for k in ("err", "chg"): D.gset(st, k, 0)
        st, _ = S.one("parse_arguments", [3, D.argv(st, ["pasm", "a.asm", "b.asm"])], st)
        S.set(st, "final_pass", final)
        S.set(st, "error_count", fresh("old errors", 32, 0, 1000)); S.set(st, "sym_value_changed", fresh("old changes", 32, 0, 1000))
        for s, _ in S.call("parse_pass", [], st):
            n += 1
            ctx.ob("pass/errors counted", S.get(s, "error_count") == D.gget(s, "err"), "after a pass the error count is %r, %r were reported" % (S.get(s, "error_count"), D.gget(s, "err")))
            ctx.ob("pass/changes counted", S.get(s, "sym_value_changed") == D.gget(s, "chg"), "after a pass the count of changed symbols is %r, %r were counted" % (S.get(s, "sym_value_changed"), D.gget(s, "chg")))
        ctx.need(n, "passes")
        ctx.ob("pass/every file parsed", len(seen) >= 2, "%d of 2 files are parsed" % len(seen))
        for s, code, where, stk in I.exits:
            ctx.ob("pass/failure exit", status_is_failure(s, code), "exit status %r" % (code,), where)
        I.exits.clear()
    I.models.clear(); I.models.update(saved)
