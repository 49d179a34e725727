"""C10: output only after a clean, fully resolved pass."""
from .common import *
from .common import _ai
from . import scen, driver, labels
from engine import libc, dom
EXPLANATION = ("Abstract interpretation of main/assemble/parse_pass and the symbol code (LLVM IR of /repo's current sources). A pass is any combination of errors, changed "
               "and unresolved symbols, the number of passes is arbitrary (the pass loop is generalised); wherever an output, symbol or listing file is opened, the facts of the "
               "path must imply that the last pass before the final one was complete and left zero errors, zero changed and zero unresolved symbols. A reference to an undefined "
               "name of every kind must be counted as unresolved, a defined one must not.")
ASSUMPTIONS = ["a pass touches the counters as the separately decided contract of parse_pass says"]
def run(ctx):
    ctx.rule = "fopen for writing: last complete pass had errors == changed == unresolved == 0"
    D = driver.Driver(ctx); S, I = D.S, D.I
    driver.parse_contract(ctx, D)
    saved = dict(I.models)
    D.passes()
    fop = I.models["fopen"]
    opened = set()
    def zero(st, v): return v == 0 or isinstance(v, Lin) and st.rset(v) == ((0, 0),)
    def fopen(I, st, a, inst):
        mode = libc.cstr(I, st, a[1]) or "?"
        if mode[0] != 'r':
            k = I.where(inst).split(' ')[0].split(':')[0] + "/" + (inst.fnc.base) + "/" + (libc.cstr(I, st, a[0]) or "?")
            opened.add(k)
            ctx.ob(k + "/after a pass", D.gget(st, "passes") == 1, "a file is created before the first pass", I.where(inst))
            ctx.ob(k + "/no error", zero(st, D.gget(st, "err")), "a file is created although the last pass may have reported errors", I.where(inst))
            ctx.ob(k + "/no change", zero(st, D.gget(st, "chg")), "a file is created although symbols may have changed in the last pass", I.where(inst))
            ctx.ob(k + "/resolved", zero(st, D.gget(st, "unres")), "a file is created although symbols may be unresolved after the last pass", I.where(inst))
            if "out" in (libc.cstr(I, st, a[0]) or "?"):
                ctx.ob(k + "/before the final pass", D.gget(st, "final") == 0, "the image is opened after the final pass", I.where(inst))
            else:
                ctx.ob(k + "/after the final pass", D.gget(st, "final") == 1, "the file is written before the final pass", I.where(inst))
        return fop(I, st, a, inst)
    I.models["fopen"] = fopen
    n = 0
    for w, s, v in D.runs():
        n += 1
        if v == 0:
            ctx.ob("success/final pass", D.gget(s, "final") == 1, "success without a final pass")
            if "-o" in w:
                ctx.ob("success/image", any(e[0] == 'fopen' and (libc.cstr(I, s, e[2]) or "") == "out.bin" for e in s.events()), "success without an image")
    ctx.need(n, "runs"); ctx.need(len(opened), "files opened for writing")
    ctx.extra["runs"] = n; ctx.extra["files_opened"] = sorted(opened)
    I.models.clear(); I.models.update(saved)
    # undefined names count as unresolved
    L = labels.Labels(ctx)
    S = L.S
    def count(st): return S.call("unresolved_symbol_count", [], st)
    for name in ("foo", "@loop", "sec.foo", "-", "+"):
        for scope in (None, "sec"):
            for label in ("start", None):
                if label is None and name not in ("foo", "@loop"): continue
                key = "undefined %s%s%s" % (name, " in a section" if scope else "", "" if label else " before any label")
                st = L.start(scope, label)
                c0 = None
                for s, k in count(st): c0 = k
                for s, v, _ in L.reference(st, name):
                    err = S.get(s, "error_count") != 0
                    for t, k in count(s.fork()):
                        lo = t.rng(k)[0]
                        ctx.ob(key, err or lo >= 1, "a reference to an undefined name (value %r) leaves the number of unresolved symbols at %r" % (v, k))
                    if name in "+-": continue
                    # another definition does not resolve it, its own does
                    s2, node = L.statement(s.fork(), "const", "other", fresh("v", 32, 0, 0xFFFF))
                    for t, e, _, _ in L.run(s2, node):
                        for u, k in count(t): ctx.ob(key + "/another definition", err or u.rng(k)[0] >= 1, "the definition of another name resolves it")
                    if name == "sec.foo": continue
                    s2, node = L.statement(s, "assign", name, fresh("v", 32, 0, 0xFFFF))
                    for t, e, _, _ in L.run(s2, node):
                        for u, k in count(t): ctx.ob(key + "/defined", e or k == 0 or u.rset(k) == ((0, 0),), "after its definition %r symbols are unresolved" % (k,))
