"""Call graph over the IR: direct calls, and every address-taken function at an indirect call."""
from engine.llvm import Reg, GlobalRef, FuncRef, CExpr, Agg

def _walk(v, acc):
    if isinstance(v, FuncRef): acc.append(v.f)
    elif isinstance(v, CExpr):
        for a in v.args:
            _walk(a[0] if isinstance(a, tuple) else a, acc)

class Graph:
    def __init__(self, mod):
        self.mod = mod
        self.edges = {}; self.indirect = set(); taken = set()
        for f in mod.functions.values():
            if f.decl: continue
            e = self.edges[f] = []
            for b in f.blocks:
                for x in b.insts:
                    if x.op in ('call', 'invoke'):
                        if isinstance(x.x, FuncRef): e.append((x.x.f, x))
                        elif not isinstance(x.x, str): self.indirect.add(f)
                    acc = []
                    for o in x.ops: _walk(o, acc)
                    taken |= set(acc)
        for g in mod.globals.values():
            if g.decl or g.name.startswith('llvm.'): continue
            for off, (sz, v) in g.cells().items():
                acc = []; _walk(v, acc); taken |= set(acc)
        self.taken = taken
    def below(self, *roots):
        """functions that may run in a call of one of the roots"""
        seen = set(); todo = list(roots)
        while todo:
            f = todo.pop()
            if f in seen: continue
            seen.add(f)
            for g, x in self.edges.get(f, ()): todo.append(g)
            if f in self.indirect: todo.extend(self.taken)
        return seen
    def sites(self, fns):
        for f in fns:
            if f.decl: continue
            for b in f.blocks:
                for x in b.insts: yield f, x

def address(v, regs=None):
    """the global a pointer operand designates directly, or None"""
    if isinstance(v, GlobalRef): return v.g
    if isinstance(v, CExpr) and v.op in ('gep', 'bitcast'):
        a = v.args[0]
        return address(a[0] if isinstance(a, tuple) else a)
    return None

def set_before_use(mod, g):
    """every function that reads g has written it before on every path, and its address goes nowhere else"""
    for f in mod.functions.values():
        if f.decl: continue
        reads = False
        for b in f.blocks:
            for x in b.insts:
                for k, o in enumerate(x.ops):
                    if address(o) is not g: continue
                    if x.op == 'load': reads = True
                    elif x.op == 'store' and k == 1: pass
                    else: return False
        if not reads: continue
        n = len(f.blocks)
        pred = {i: [] for i in range(n)}
        for b in f.blocks:
            for s in b.succ: pred[s if isinstance(s, int) else s.idx].append(b.idx)
        ins = {i: True for i in range(n)}; ins[0] = False
        outs = dict(ins)
        def flow(b, v):
            for x in b.insts:
                if x.op == 'load' and address(x.ops[0]) is g and not v: bad[0] = True
                if x.op == 'store' and address(x.ops[1]) is g: v = True
            return v
        bad = [False]; change = True
        while change:
            change = False
            for b in f.blocks:
                i = b.idx
                v = False if i == 0 else all(outs[p] for p in pred[i])
                o = flow(b, v)
                if o != outs[i] or v != ins[i]: outs[i] = o; ins[i] = v; change = True
        bad[0] = False
        for b in f.blocks: flow(b, ins[b.idx])
        if bad[0]: return False
    return True

def balanced(mod, g, fns):
    """every function of fns leaves g, on every returning path, as it found it (given that its callees do)"""
    for f in fns:
        if f.decl: continue
        touched = False
        for b in f.blocks:
            for x in b.insts:
                for k, o in enumerate(x.ops):
                    if address(o) is not g: continue
                    if x.op == 'load': pass
                    elif x.op == 'store' and k == 1: touched = True
                    elif x.op == 'icmp': pass
                    else: return False
        if not touched: continue
        vals = {}                      # id(instruction) -> distance from the value on entry
        ins = {0: 0}; todo = [0]; seen = {}
        while todo:
            i = todo.pop(); n = ins[i]
            for x in f.blocks[i].insts:
                d = None
                if x.op == 'load' and address(x.ops[0]) is g: d = n
                elif x.op in ('add', 'sub') and len(x.ops) == 2:
                    a, c = x.ops
                    if isinstance(c, int) and isinstance(a, Reg) and vals.get(a.id) is not None: d = vals[a.id] + (c if x.op == 'add' else -c)
                elif x.op == 'store' and address(x.ops[1]) is g:
                    v = x.ops[0]; n = vals.get(v.id) if isinstance(v, Reg) else None
                elif x.op == 'ret' and n != 0: return False
                if x.id is not None: vals[x.id] = d if x.id not in vals or vals[x.id] == d else None
            for s in f.blocks[i].succ:
                s = s if isinstance(s, int) else s.idx
                m = n if s not in ins or ins[s] == n else None
                if s not in ins or ins[s] != m: ins[s] = m; todo.append(s)
    return True
