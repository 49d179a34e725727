"""Starting states and drivers shared by the checks that follow the expander."""
from .common import *
from .common import _ai
from engine import dom
from engine.llvm import Ty, Reg, GlobalRef, CExpr
I8 = Ty('i', 8, 1, None); I32 = Ty('i', 32, 4, None); I64 = Ty('i', 64, 8, None); PT = Ty('p', 64, 8, None)

def readonly_globals(mod):
    """non-const globals no instruction can write: every use is a load (through geps)"""
    bad = set()
    def root(v):
        if isinstance(v, GlobalRef): return v.g
        if isinstance(v, CExpr) and v.op in ('gep', 'bitcast'):
            a = v.args[0][0] if v.op == 'gep' else v.args[0]
            return root(a)
        return None
    for f in mod.functions.values():
        if f.decl: continue
        derived = {}
        for b in f.blocks:
            for x in b.insts:
                ops = list(x.ops)
                for k, v in enumerate(ops):
                    g = root(v) if not isinstance(v, Reg) else derived.get(v.id)
                    if g is None: continue
                    if x.op == 'load': continue
                    if x.op in ('gep', 'bitcast') and k == 0:
                        derived[x.id] = g; continue
                    if x.op == 'icmp': continue
                    bad.add(g.name)
    # address stored in another global's initialiser
    for g in mod.globals.values():
        if g.decl: continue
        for off, (sz, v) in g.cells().items():
            r = root(v)
            if r is not None and r.size <= 8: bad.add(r.name)
    return [g for g in mod.globals.values() if not g.const and not g.decl and g.name not in bad]

class Scn:
    """A program state as it is when a pass has begun (reset_lex executed on the
    initial memory), with the chosen variables made arbitrary afterwards."""
    def __init__(self, ctx, probes=()):
        self.ctx = ctx
        if ctx.mod is None: ctx.load(probes)
        self.mod = ctx.mod
        self.I = I = ctx.interp('init')
        I.malloc_null = False
        st = _ai.State()
        self.console = self.file(I, "console")
        self.out = self.file(I, "image")
        self.set(st, "console", self.console); self.set(st, "console_error", self.console)
        self.set(st, "yyin", NULL)
        I.printer = None
        r = I.call(ctx.fn("reset_lex"), [], st)
        if len(r) != 1: raise Broken("reset_lex does not have exactly one outcome on the initial state (%d)" % len(r))
        self.base = r[0][0]
        self.base.ev = None
        I.exits.clear()
        self.error_model()
    def error_model(self):
        """error reporting: counts, prints nothing of interest"""
        I = self.I
        def yymessage(I, st, a, inst): return None
        I.models["yymessage"] = yymessage
        def listed(I, st, a, inst): st.event('list', a[0], I.where(inst))
        I.models["generate_list_node"] = listed
    def file(self, I, name):
        o = I.alloc(name, 'file', 216, 'havoc')
        return Ptr(o.id, 0)
    def set(self, st, name, v, size=None):
        p = self.I.gptr(name)
        g = self.mod.gv(name)
        st.wcells(p.o)[0] = (size or g.size, v)
    def get(self, st, name, ty=None):
        g = self.mod.gv(name)
        if g is None: raise Broken("global not found: " + name)
        if ty is None: ty = {1: I8, 4: I32, 8: PT}[g.size]
        return self.I.load(st, self.I.gptr(name), ty)
    def start(self): return self.base.fork()
    def fld(self, s, f): return self.ctx.P("off_%s__%s" % (s, f))
    def rd(self, st, p, s, f, ty=I32):
        return self.I.load(st, Ptr(p.o, add(p.off, self.fld(s, f))), ty)
    def wr(self, st, p, s, f, v, ty=I32):
        self.I.store(st, Ptr(p.o, add(p.off, self.fld(s, f))), v, ty)
    def call(self, name, args, st):
        I = self.I
        I.MAXSTEPS = I.steps + 4000000; del I.stack[:]
        return I.call(self.ctx.fn(name), args, st)
    def text(self, st, s, name=None):
        """a constant C string object"""
        from engine.libc import put_const, set_txt
        o = self.I.alloc(name or repr(s), 'heap', len(s) + 1, 'undef')
        st.nonnull = st.nonnull | {o.id}
        p = Ptr(o.id, 0)
        put_const(self.I, st, p, s)
        return p
    def one(self, name, args, st):
        """call with exactly one outcome"""
        r = self.call(name, args, st)
        if len(r) != 1: raise Broken("%s has %d outcomes" % (name, len(r)))
        return r[0]

def writes(st, f, frm=None):
    """bytes written to file object f, in order"""
    return [e for e in st.events() if e[0] == 'write' and isinstance(e[1], Ptr) and e[1].o == f.o]

def ev_since(st, mark):
    l = []; e = st.ev
    while e is not None and e is not mark:
        l.append(e[1]); e = e[0]
    l.reverse()
    return _ai.unfold(l)
