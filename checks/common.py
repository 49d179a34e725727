"""Shared driver of the checks: build, obligations, known findings, evidence."""
import os, sys, json, time, traceback, importlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from engine import build as _build, llvm as _llvm, ai as _ai, dom as _dom
from engine.dom import *
from engine import ai as _ai

def same_bits(st, a, b, w=8):
    """a and b agree modulo 2^w on every value the facts allow"""
    if a == b: return True
    if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)): return False
    a, b = _ai.bits(st, a, 0, w), _ai.bits(st, b, 0, w)
    if a == b: return True
    ra, rb = st.rset(a), st.rset(b)
    if len(ra) == 1 and ra[0][0] == ra[0][1] and ra == rb: return True
    def key(x):
        if isinstance(x, Lin) and len(x.t) == 1 and x.k == 0 and x.t[0][1] == 1:
            k = _dom.ATOMS[x.t[0][0]].key
            if k[0] == 'bits': return k
        return None
    def under(x):
        k = key(x)
        return _ai.bits(st, k[1], 0, w) if k and k[2] == 0 and k[3] >= w else x
    if under(a) == under(b): return True
    ka, kb = key(a), key(b)
    if ka and kb and ka[1:3] == kb[1:3]:
        n = min(ka[3], kb[3])
        return st.rng(a)[1] < 1 << n and st.rng(b)[1] < 1 << n
    return False

class Broken(Exception):
    """the analysis cannot answer (vanished anchor, unsupported construct, ...)"""

import re
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = {}            # key -> (ok, detail, where)
        self.interps = []
        self.rule = ""; self.notes = []; self.assumptions = []; self.extra = {}
        self.t0 = time.time()
        self.mod = None
    # ---------------------------------------------------------------- program
    def load(self, probes=()):
        self.build = _build.Build().compile(list(probes))
        self.mod = _llvm.Module(self.build.bc)
        return self.mod
    def P(self, name):
        g = self.mod.gv("probe_" + name)
        if g is None: raise Broken("probe missing: " + name)
        for off, (sz, v) in g.cells().items():
            return v
        return 0
    def fn(self, base):
        f = self.mod.fn(base)
        if f is None or f.decl: raise Broken("function not found: " + base)
        return f
    def interp(self, globmode='havoc', **kw):
        I = _ai.Interp(self.mod, None)
        I.globmode = globmode
        for k, v in kw.items(): setattr(I, k, v)
        self.interps.append(I)
        return I
    # ------------------------------------------------------------ obligations
    def ob(self, key, ok, detail="", where=""):
        key = str(key)
        old = self.obs.get(key)
        if old is not None and not old[0]: return ok
        if old is not None and ok: return ok
        self.obs[key] = (bool(ok), detail, where)
        return ok
    def need(self, n, what):
        if n <= 0: raise Broken("no instance found: " + what)

def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    with open(p) as f: return json.load(f)["findings"]

def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, pid + ".report.txt")
    try:
        m = importlib.import_module("checks." + pid.lower())
        m.run(ctx)
        if not ctx.obs: raise Broken("no obligation was generated")
    except Exception as e:
        expected = isinstance(e, (Broken, _ai.AnalysisError, _build.BuildError))
        kn = {(k["property"], k["key"]) for k in known() if k.get("status", "open") == "open"}
        # a violation established before the analysis got stuck stands on its own
        if not any(not o[0] and (pid, k) not in kn for k, o in ctx.obs.items()):
            if expected:
                print("ERROR: %s: analysis gives no answer: %s: %s" % (pid, type(e).__name__, e))
                if "--trace" in argv: traceback.print_exc()
                return 2
            traceback.print_exc()
            print("ERROR: %s: internal error of the analysis" % pid)
            return 3
        ctx.extra["incomplete"] = "%s: %s" % (type(e).__name__, e)
    kn = {(k["property"], k["key"]): k for k in known() if k.get("status", "open") == "open"}
    failed = [(k, d, w) for k, (ok, d, w) in ctx.obs.items() if not ok]
    viol = [f for f in failed if (pid, f[0]) not in kn]
    listed = [f for f in failed if (pid, f[0]) in kn]
    for k, d, w in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kn[(pid, k)]["what"]))
    analysed = set(); calls = set(); branches = set(); loops = set(); steps = 0; unk = {}
    for I in ctx.interps:
        analysed |= I.analysed; calls |= I.callsites; branches |= I.branches; loops |= I.loops_done; steps += I.steps
        for n, c in I.unknown_calls.items(): unk[n] = unk.get(n, 0) + c
    total = len(ctx.obs); good = sum(1 for o in ctx.obs.values() if o[0])
    cov = {"explanation": m.EXPLANATION, "rule": ctx.rule, "obligations": total, "discharged": good,
           "known_findings": len(listed),
           "units_analysed": getattr(ctx, "build", None).units if getattr(ctx, "build", None) else [],
           "functions_analysed": sorted(analysed), "call_sites_analysed": len(calls),
           "branch_points": len(branches), "loops_generalised": len(loops), "abstract_steps": steps,
           "unmodelled_external_calls": unk,
           "samples": ["%s: %s%s" % (k, "ok" if v[0] else "FAILED", (" (" + v[1] + ")") if v[1] else "")
                       for k, v in list(ctx.obs.items())[:12]]}
    cov.update(ctx.extra)
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
           "assumptions": getattr(m, "ASSUMPTIONS", []) + ctx.assumptions, "violations": len(viol),
           "wall_s": round(time.time() - ctx.t0, 3)}
    with open(os.path.join(ev, pid + ".json"), "w") as f: json.dump(doc, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d known findings, %d functions, %.1f s" %
          (pid, total, good, len(listed), len(analysed), time.time() - ctx.t0))
    if viol:
        with open(replay, "w") as f:
            f.write("property %s\nrule: %s\n\n" % (pid, ctx.rule))
            for k, d, w in viol: f.write("obligation %s\n  at %s\n  %s\n\n" % (k, w or "?", d))
        for k, d, w in viol[:20]: print("  violated: %s at %s: %s" % (k, w or "?", d))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0
