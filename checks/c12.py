"""C12: a failed write of the program image is reported."""
from .common import *
from .common import _ai
from . import scen, driver, data, isa, exprs, c09, labels
from engine import libc
EXPLANATION = ("Abstract interpretation of every emitting statement kind and of the image header (LLVM IR of /repo's current sources) with each write to the image allowed to "
               "fail or to fall short at every point; on every path on which a write failed, an error must have been reported or the assembler must have been left with a failure "
               "status. main() is followed with a close (or flush) of the image that fails: the status must be a failure; and on every successful path the image must have been "
               "closed, so that no buffered data is delivered unchecked at process end.")
ASSUMPTIONS = ["the stdio functions report a failed write in their result, as specified by C"]
STMTS = ["imp", "imm", "abs", "absx", "near", "far", "word"]

class Failing(data.Data):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.seen = {}; self.pc = None
    def ob(self, *a): pass
    def ended(self, key, s, ok, where):
        w = [e for e in s.events() if e[0] == 'writefail']
        if not w: return
        self.seen[key] = self.seen.get(key, 0) + 1
        self.ctx.ob(key, ok, "a write to the image fails and nothing is reported", w[0][1] if len(w) < 4 else w[-1][1])
    def both(self, st, node, key):
        I, S = self.I, self.S
        I.exits.clear()
        pos = self.position(st, 0)
        if self.pc is not None:
            pos = (self.pc, pos[1], pos[2], add(sub(self.pc, pos[1]), pos[2])); self.place(st, pos, 0); self.pc = None
        for a, _ in S.call("expand_node", [node], st):
            self.place(a, pos, 1)
            for y, v in self.later: S.wr(a, y, "symbol_table", "value", v); S.wr(a, y, "symbol_table", "is_initialized", 1, scen.I8)
            e1 = S.get(a, "error_count")
            I.exits.clear()
            self.fails(key, a, node, e1)
        I.exits.clear()
        return []
    def fails(self, key, a, node, e1):
        I, S = self.I, self.S
        I.io_fail = True
        for f, _ in S.call("expand_node", [node], a):
            self.ended(key, f, S.get(f, "error_count") != e1 and f.rng(sub(S.get(f, "error_count"), e1))[0] >= 1, "")
        I.io_fail = False
        for s, c, w, stk in I.exits: self.ended(key, s, driver.status_is_failure(s, c), w)
        I.exits.clear()
    def judge(self, *a): pass
    def judge_fill(self, *a): pass
    def stmt(self, kind):
        S, P = self.S, self.ctx.P
        st = S.start(); self.later = []
        pc = fresh("pc", 32, 0, 0xFFFF)
        v = fresh("v", 32, 0, 255) if kind in ("imm",) else fresh("v", 32, 256, 0xFFFF)
        if kind == "near": v = add(pc, 10)
        if kind == "far": v = add(pc, 1000)
        if kind == "imp": st, n = S.one("opcode_node", [P("_nop"), P(isa.MODES["imp"]), 0], st)
        else:
            st, c = S.one("constant_node", [v, 0], st)
            mn, mode = {"imm": ("lda", "imm"), "abs": ("lda", "abs"), "absx": ("sta", "absx"), "near": ("bne", "abs"), "far": ("bne", "abs"), "word": ("jmp", "abs")}[kind]
            for s, n in S.call("opcode_node", [P("_" + mn), P(isa.MODES[mode]), 1, c], st):
                self.pc = pc; self.both(s, n, "instruction/" + kind)
            return
        self.both(st, n, "instruction/" + kind)

def run(ctx):
    ctx.rule = "path with a failed write => error count raised or failure exit; success => image closed and the close checked"
    im = c09.Image.__new__(c09.Image)
    ctx.load(sorted(set(isa.probes() + data.PROBES + exprs.PROBES + c09.PROBES + driver.Driver.PROBES + labels.PROBES)))
    D = Failing(ctx)
    for kind in data.SIZE:
        for spec in ("N", "S1", "S3", "N,N", "S3,N", "V", "F"): D.listed(kind, spec)
    for c in (1, 2, 3): D.fill(c)
    for n in (1, 3): D.load(n)
    for k in STMTS: D.stmt(k)
    # first statement, behind the header
    im.ctx, im.D, im.S, im.I = ctx, D, D.S, D.I
    for fmt in ("c64", "bin"):
        for k in c09.KINDS:
            st = D.S.start(); D.S.set(st, "output_file_format", ctx.P(fmt)); D.S.set(st, "output_file", D.S.out); D.S.set(st, "final_pass", 1)
            st, n, w = im.node(st, k)
            st.ev = None
            D.fails("first statement/%s/%s" % (fmt, k), st, n, D.S.get(st, "error_count"))
    for k, n in D.seen.items(): ctx.need(n, "failing writes of " + k)
    ctx.need(len(D.seen) - 30, "statements with failing writes")
    ctx.extra["failing_paths"] = sum(D.seen.values()); ctx.extra["statements"] = sorted(D.seen)
    driver_part(ctx)

def driver_part(ctx):
    V = driver.Driver(ctx); S, I = V.S, V.I
    V.passes()
    I.io_fail = True
    closed = fails = 0
    def image(s): return [e[1] for e in s.events() if e[0] == 'fopen' and libc.cstr(I, s, e[2]) == "out.bin" and (e[3] or "?")[0] != 'r']
    def end(s, v, what, where=""):
        nonlocal closed, fails
        ids = image(s)
        if not ids: return
        # failures of other streams are not judged here
        bad = [e for e in s.events() if e[0] == 'writefail' and len(e) > 3 and e[3] in ids]
        if bad:
            fails += 1
            ctx.ob(what + "/close fails", driver.status_is_failure(s, v), "the image cannot be closed and the status may be 0 (%r)" % (v,), bad[0][1])
        elif not driver.status_is_failure(s, v):
            for i in ids:
                closed += 1
                ctx.ob(what + "/closed", any(e[0] in ('fclose', 'fflush') and e[1] == i for e in s.events()), "success is reported with the image still open: buffered data is delivered at exit, unchecked", where)
    for w, s, v in V.runs(): end(s, v, "main")
    for s, c, w, stk in I.exits: end(s, c, "exit", w)
    I.exits.clear()
    ctx.need(closed, "successful runs with an image"); ctx.need(fails, "runs whose image cannot be closed")
    ctx.extra["driver_paths"] = closed + fails
