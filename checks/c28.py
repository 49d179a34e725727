"""C28: the listing shows the bytes that are written."""
from .common import *
from . import isweep, isa, data, exprs, chartext, listfile
EXPLANATION = ("Abstract interpretation of every instruction (CPU, illegal switch, operand syntax) and every data statement with the real listing code "
               "(generate_list_node, add_list; LLVM IR of /repo's current sources) in the writing pass, all values symbolic, text modelled character by character; on every "
               "error-free path the byte values shown in the recorded listing rows are compared, as terms, with the bytes written to the image, and the shown "
               "addresses with the location counter. Then the writer of the listing file: for every history of up to four printing switches, rows on "
               "a new line and rows on the same line, and for histories with (nested, empty, repeated) included files, the rows that reach the file "
               "are exactly those recorded while printing was on, in order.")
ASSUMPTIONS = ["listing is switched on (.print on)", "strings of 0..4 characters and lists up to three items stand for all lengths"]
class Listed(data.Data):
    def __init__(self, ctx):
        super().__init__(ctx)
        S = self.S
        del S.I.models["generate_list_node"]
        chartext.install(S.I)
        S.set(S.base, "current_file_name", S.text(S.base, "a.asm"))
    def place(self, st, pos, final):
        if final:
            self.ob("C28", "address pass", not chartext.listing(self.S, st), "listing rows are recorded in a pass that only computes addresses", "node.cc (generate_list_node)")
            self.S.set(st, "list_head", NULL)
        super().place(st, pos, final)
        self.pos = pos
    def check(self, key, outs):
        n = 0
        for f, dA, eA, dF, eF, dT in outs:
            if eA or eF: continue
            n += 1
            rows = [chartext.shown(r) for r in chartext.listing(self.S, f)]
            lb = [x for r in rows if r is not None for x in r[1]]
            m = self.match(f, self.flat(f), lb)
            self.ob("C28", key, m is None, "listing and image differ: %s" % (m,), "node.cc (generate_list_node)")
            at = 0
            for r in rows:
                if r is None: continue
                p = add(self.pos[0], at)
                want = [data.bits(f, p, 8, 8), data.bits(f, p, 0, 8)]
                self.ob("C28", key + "/address", r[0] is not None and None not in r[0] and all(self.eq8(f, x, y) for x, y in zip(r[0], want)),
                        "the listing shows address %r, expected %r" % (r[0], want), "node.cc (generate_list_node)")
                at += len(r[1])
        self.ob("C28", key, n > 0, "never accepted", "expand.cc")
    def judge(self, key, kind, items, outs): self.I.exits.clear(); self.check(key, outs)
    def judge_fill(self, key, v, count, outs): self.I.exits.clear(); self.check(key, outs)
LISTS = ["N", "S0", "S1", "S2", "S3", "S4", "N,N", "N,S3,N", "V,S1"]
def run(ctx):
    ctx.rule = "error-free path: bytes shown in the listing rows, in order == bytes written; shown address == address of the row's first byte"
    ctx.load(sorted(set(isa.probes() + isweep.PROBES + data.PROBES + exprs.PROBES + chartext.PROBES + listfile.PROBES)))
    isweep.run(ctx, "C28", listing=True)
    L = Listed(ctx)
    for kind in data.SIZE:
        for spec in LISTS: L.listed(kind, spec)
    for c in (0, 1, 2, 3, 8, 9): L.fill(c)
    for p, key, ok, d, w in L.out:
        if p == "C28": ctx.ob("data " + key, ok, d, w)
    listfile.run(ctx)
