"""Accesses outside the object they belong to."""
from .common import *
from .common import _ai
from . import scen
from .scen import I8, I32, I64, PT
from engine.dom import OBJS, add, sub
from engine import libc

class Bounds:
    """records ('outside', where, what, offset, size, object) for every access that may leave its object.
    loads: also reads; only: predicate on the object"""
    def __init__(self, I, loads=False, only=None):
        self.I = I; self.loads = loads; self.only = only; self.seen = set(); self.count = 0
        old = I.on_access
        def access(I, st, p, size, inst, what):
            if old: old(I, st, p, size, inst, what)
            if what == 'load' and not self.loads: return
            obj = OBJS[p.o]
            if self.only and not self.only(obj): return
            n = obj.size
            if n is None: return
            self.count += 1
            if inst is not None: self.seen.add((inst.file.split('/')[-1], inst.line))
            lo = p.off if isinstance(p.off, int) else st.rng(p.off)[0]
            room = sub(n, add(p.off, size))
            room = room if isinstance(room, int) else st.rng(room)[0]
            if lo < 0 or room < 0:
                st.event('outside', I.where(inst), what, "%r" % (add(p.off, size),), "%r" % (n,), obj.name)
        I.on_access = access
    @staticmethod
    def bad(st, mark):
        return [e for e in scen.ev_since(st, mark) if e[0] in ('outside', 'nullderef', 'uaf', 'wild-load', 'wild-store')]
    @staticmethod
    def tell(e):
        return "%s of %s byte(s) reaches %s of %s bytes" % (e[2], e[5], e[3], e[4]) if e[0] == 'outside' else " ".join(map(str, e))

    def call(self, ctx, S, key, fn, args, st):
        """a call that may leave the known part of the program after a bad access"""
        seen = []; orig = _ai.State.event
        def event(s, *e):
            if e[0] in ('outside', 'nullderef', 'uaf', 'wild-load', 'wild-store'): seen.append(e)
            orig(s, *e)
        _ai.State.event = event
        try: return S.call(fn, args, st)
        except _ai.AnalysisError:
            if not seen: raise
            ctx.ob(key, False, self.tell(seen[0]), seen[0][1]); return []
        finally: _ai.State.event = orig
