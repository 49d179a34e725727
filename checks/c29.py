"""C29: command-line options are taken completely or rejected."""
from .common import *
from .common import _ai
from . import scen, driver, bounds
from .scen import I8, I32, PT
import re
EXPLANATION = ("The real argument parser is followed by the abstract interpreter on every ordered pair of options (both prefixes, both letter cases), every option twice at a distance, every option "
               "that needs a value as the last word behind every other one, and every notation of a symbol value; on each path the settings, the list of files and the exit status must be what "
               "the words say. The text of a symbol value is also left open: then every accepted value must be the whole text's conversion in the announced base.")
ASSUMPTIONS = ["argv ends with a null pointer"]
VALUE = {"-o": "output_file_name", "-s": "sym_file_name", "-dir": "directories", "-log": "log_file_name", "-l": "list_file_name"}
FLAG = {"-c64": ("output_file_format", "c64"), "-v": ("verbose", 1), "-65c02": ("cpu_mode", "cpu_65C02"), "-6502": ("cpu_mode", "cpu_6502"), "-i": ("allow_illegal_op_codes", 1), "-nowarn": ("ignore_warnings", 1)}
GROUP = {"-65c02": "cpu", "-6502": "cpu"}
PROBES = ["E(c64)", "E(cpu_65C02)", "E(cpu_6502)", "O(symbol_table,value)", "O(symbol_table,is_initialized)"]
BADEV = ("nullderef", "outside", "uaf")

class Args:
    def __init__(self, ctx):
        self.ctx = ctx
        self.S = S = scen.Scn(ctx, sorted(set(PROBES)))
        self.I = S.I
        self.I.unroll_decided = 5000
        self.I.models.pop("yymessage", None)
        for n in ("init_expander", "yymessage", "usage"): self.I.models[n] = lambda I, st, a, inst: 0
        ctx.need(ctx.fn("parse_arguments") is not None, "parse_arguments")
        self.W = bounds.Bounds(self.I, loads=True, only=lambda o: o.name == "argv" or o.name.endswith("parse_arguments)") )
        st = S.start()
        S.call("pre_parse", [], st)
        # settings before the first option
        self.default = {v: S.get(st, v, PT) for v in VALUE.values()}
        for f, (v, x) in FLAG.items(): self.default[v] = S.get(st, v)
        self.runs = 0
    def num(self, x): return self.ctx.P(x) if isinstance(x, str) else x
    def words(self, st, ws):
        S, I = self.S, self.I
        o = I.alloc("argv", 'heap', 8 * (len(ws) + 1), 'undef'); st.nonnull = st.nonnull | {o.id}
        ps = [S.text(st, w) if isinstance(w, str) else w for w in ws]
        for k, w in enumerate(ps): I.store(st, Ptr(o.id, 8 * k), w, PT)
        I.store(st, Ptr(o.id, 8 * len(ps)), NULL, PT)
        return Ptr(o.id, 0), ps
    def run(self, ws, st=None):
        """[(state, 'go'|status)]"""
        S, I = self.S, self.I
        st = st or S.start()
        argv, ps = self.words(st, ["pasm"] + ws)
        mark = st.ev
        I.exits.clear(); self.runs += 1
        res = S.call("parse_arguments", [len(ws) + 1, argv], st)
        out = [(s, 'go', v) for s, v in res] + [(x[0], 'exit', x[1]) for x in I.exits]
        I.exits.clear()
        key = " ".join(w if isinstance(w, str) else "..." for w in ws)
        for s, how, v in out:
            for e in scen.ev_since(s, mark):
                self.ctx.ob("reads", e[0] not in BADEV and not e[0].startswith('wild'), "`%s`: %s" % (key, e), "parseargs.cc")
        return out, ps

def expect(words):
    """(settings, files, symbols) | 'reject' | 'help'"""
    seen = set(); sets = {}; files = []; syms = {}
    k = 0
    while k < len(words):
        w = words[k].lower()
        if w[0] == '/': w = '-' + w[1:]
        if w in ("-?", "-h"): return 'help'
        if w in VALUE:
            if k + 1 >= len(words) or w in seen: return 'reject'
            seen.add(w); sets[VALUE[w]] = words[k + 1]; k += 2
        elif w in FLAG:
            g = GROUP.get(w, w)
            if g in seen: return 'reject'
            seen.add(g); sets[FLAG[w][0]] = FLAG[w][1]; k += 1
        elif w == "-d":
            if k + 2 >= len(words): return 'reject'
            v = value(words[k + 2])
            if v is None: return 'reject'
            syms[words[k + 1]] = v; k += 3
        else: files.append(words[k]); k += 1
    return (sets, files, syms) if files else 'reject'
def value(t):
    m = re.fullmatch(r'(\$|0x)([0-9a-fA-F]+)', t)
    v = int(m.group(2), 16) if m else None
    if v is None:
        m = re.fullmatch(r'(%|0b)([01]+)', t)
        v = int(m.group(2), 2) if m else int(t) if re.fullmatch(r'\d+', t) else None
    return v if v is not None and v <= 0xFFFF else None

def run(ctx):
    ctx.rule = "settings, files and symbols after parse_arguments == those the words name; missing value, repetition or bad number => exit with a failure status; no read behind the last word"
    A = Args(ctx); S, I = A.S, A.I
    def judge(key, ws):
        want = expect(ws)
        out, ps = A.run(ws)
        ctx.need(len(out), "outcome of " + " ".join(ws))
        line = " ".join(ws)
        for s, how, v in out:
            if want == 'reject':
                ctx.ob(key + "/rejected", how == 'exit' and driver.status_is_failure(s, v) or how == 'go' and isinstance(v, int) and v < 0, "`%s` is accepted (%s %r)" % (line, how, v), "parseargs.cc"); continue
            if want == 'help':
                ctx.ob(key + "/help", how == 'exit' and v == 0, "`%s`: %s %r" % (line, how, v), "parseargs.cc"); continue
            if not ctx.ob(key + "/accepted", how == 'go' and v == len(want[1]), "`%s` is refused or has another number of files (%s %r)" % (line, how, v), "parseargs.cc"): continue
            sets, files, syms = want
            for var, d in A.default.items():
                text = var in VALUE.values()
                got = S.get(s, var, PT) if text else S.get(s, var)
                if var in sets:
                    ok = libc_text(I, s, got) == sets[var] if text else got == A.num(sets[var])
                    ctx.ob(key + "/" + var, ok, "`%s`: %s is %r" % (line, var, libc_text(I, s, got) if text else got), "parseargs.cc")
                else: ctx.ob(key + "/other settings", got == d, "`%s` changes %s to %r" % (line, var, got), "parseargs.cc")
            n = S.get(s, "input_file_count"); ctx.ob(key + "/files", n == len(files), "`%s`: %r files" % (line, n), "parseargs.cc")
            arr = S.get(s, "input_files", PT)
            for k, f in enumerate(files):
                got = libc_text(I, s, I.load(s, Ptr(arr.o, add(arr.off, 8 * k)), PT)) if isinstance(arr, Ptr) and arr.o is not None else None
                ctx.ob(key + "/files", got == f, "`%s`: file %d is %r" % (line, k, got), "parseargs.cc")
            for nm, val in syms.items():
                s2 = s.fork(); r = S.call("look_up_symbol", [S.text(s2, nm)], s2)
                y = r[0][1]
                if ctx.ob(key + "/symbol", isinstance(y, Ptr) and y.o is not None, "`%s`: %s is not defined" % (line, nm), "parseargs.cc"):
                    x = S.rd(r[0][0], y, "symbol_table", "value"); i = S.rd(r[0][0], y, "symbol_table", "is_initialized", I8)
                    ctx.ob(key + "/symbol", x == val and i == 1, "`%s`: %s is %r" % (line, nm, x), "parseargs.cc")
    def form(w, k): return [w, '/' + w[1:], w.upper(), '/' + w[1:].capitalize()][k % 4] if w[0] == '-' else w
    items = [[o, "n%d.x" % k] for k, o in enumerate(VALUE)] + [[f] for f in FLAG] + [["-d", "sym", "$1F"], ["a.asm"]]
    n = 0
    for i, a in enumerate(items):
        for j, b in enumerate(items):
            n += 1
            for forms in ((n, n + 1), (n + 2, n + 3)):
                x = [form(a[0], forms[0])] + a[1:]; y = [form(b[0], forms[1])] + b[1:]
                if a[0] == b[0] == "-d": y = [y[0], "other", "7"]
                judge("pair", x + y + ["b.asm"])
                judge("pair, files between", ["c.asm"] + x + ["d.asm"] + y)
            # the option as the last word
            if len(b) > 1:
                for cut in range(1, len(b)): judge("value missing", x + ["b.asm"] + y[:cut])
        # twice with everything else in between
        mid = [w for c in items if GROUP.get(c[0], c[0]) != GROUP.get(a[0], a[0]) for w in c]
        if a[0] not in ("-6502",):
            drop = [w for c in items if c[0] not in ("-6502", a[0]) and GROUP.get(c[0], c[0]) != GROUP.get(a[0], a[0]) for w in c]
            judge("all options", a + drop); judge("all options", drop + a)
            if a[0] not in ("-d", "a.asm"): judge("twice at a distance", a + drop + a)
        judge("help", a + ["-?"]); judge("help", ["/h"] + a)
    judge("no file", [])
    for a in items[:-1]: judge("no file", a)
    # words that only begin or end like an option are files
    for w in ("-oo", "-", "/", "o", "-lo", "-di", "-c6", "--v", "-65c0", "v", "?", "-x"): judge("other words", [w]); judge("other words", ["a.asm", w])
    # values
    good = ["0", "1", "9", "10", "255", "65535", "00000000000000000000000000000000000000012", "$0", "$f", "$F", "$fF", "$FFFF", "$00000000000000000000000000000000000000000000FFFF",
            "0x0", "0xabcd", "0x" + "0" * 60 + "1", "%0", "%1", "%1111111111111111", "%" + "0" * 80 + "101", "0b1", "0b0110", "0b" + "0" * 70 + "11", "19", "90"]
    bad = ["", "$", "%", "0x", "0b", "65536", "$10000", "0x10000", "%10000000000000000", "4294967296", "$100000000", "18446744073709551616", "$10000000000000001", "9" * 60, "$" + "1" * 60, "%" + "1" * 70,
           "x", "12x", "1 2", "g", "$g", "$1g", "0xg1", "0x1g", "%2", "%12", "0b2", "0b12", "1$", "1a", "1.5", "0b1x", "$1.", "12 "]
    for v in good + bad:
        ctx.need((value(v) is not None) == (v in good), "oracle for " + v)
        judge("value", ["-d", "sym", v, "a.asm"]); judge("value", ["a.asm", "/D", "sym", v])
    for nm in ("A", "a"): 
        for s, how, v in A.run(["-d", nm, "1", "a.asm"])[0]: ctx.ob("name that cannot be defined", how == 'exit' and driver.status_is_failure(s, v), "-d %s is accepted" % nm, "parseargs.cc")
    openvalue(ctx, A)
    ctx.extra["argument lists"] = A.runs
    ctx.need(A.runs > 400, "argument lists")

def libc_text(I, st, p):
    from engine import libc
    if not isinstance(p, Ptr) or p.o is None: return None
    return libc.cstr(I, st, p)

def openvalue(ctx, A):
    """values of any length and content behind each prefix"""
    S, I = A.S, A.I
    calls = []
    saved = dict(I.models)
    def conv(I, st, a, inst):
        base = a[2]; st.event('conv', a[0], base)
        end = fresh("converted", 64, 0, 4096)
        v = fresh("value", 64, -(1 << 63), (1 << 63) - 1)
        st.tags['conv'] = (a[0], base, v, end)
        if isinstance(a[1], Ptr) and a[1].o is not None: I.store(st, a[1], Ptr(a[0].o, add(a[0].off, end)), PT)
        ch = fresh('behind', 8); I.store(st, Ptr(a[0].o, add(a[0].off, end)), ch, I8); st.tags['conv'] += (ch,)
        calls.append(1)
        return v
    for n in ('strtol', '__isoc23_strtol', 'strtoll', '__isoc23_strtoll', 'strtoul', '__isoc23_strtoul', 'strtoull', '__isoc23_strtoull'): I.models[n] = conv
    for pre, base in (("$", 16), ("0x", 16), ("%", 2), ("0b", 2), ("", 10)):
        st = S.start()
        o = I.alloc("value text", 'heap', 8192, 'havoc'); st.nonnull = st.nonnull | {o.id}
        for k, c in enumerate(pre): I.store(st, Ptr(o.id, k), ord(c), I8)
        if not pre:
            c = fresh("digit", 8, ord('1'), ord('9')); I.store(st, Ptr(o.id, 0), c, I8)
        out, _ = A.run(["-d", "sym", Ptr(o.id, 0), "a.asm"], st)
        accepted = 0
        for s, how, v in out:
            if how != 'go': continue
            accepted += 1
            c = s.tags.get('conv')
            if c is None: continue          # converted by other means: the values above decide
            p, b, val, end, ch = c
            ctx.ob("any text/base", b == base, "a value with prefix %r is converted in base %r" % (pre, b), "parseargs.cc")
            ctx.ob("any text/start", p.o == o.id and p.off == len(pre), "a value with prefix %r is converted from offset %r" % (pre, p.off), "parseargs.cc")
            ctx.ob("any text/empty", s.rng(end)[0] >= 1, "a value %r without digits is accepted" % pre, "parseargs.cc")
            ctx.ob("any text/nothing left", s.rset(ch) == ((0, 0),), "a value %r with other text behind its digits is accepted" % pre, "parseargs.cc")
            ctx.ob("any text/range", s.rng(val)[0] >= 0 and s.rng(val)[1] <= 0xFFFF, "values %r are accepted" % (s.rng(val),), "parseargs.cc")
            s2 = s.fork(); r = S.call("look_up_symbol", [S.text(s2, "sym")], s2)
            y = r[0][1]
            if isinstance(y, Ptr) and y.o is not None:
                x = S.rd(r[0][0], y, "symbol_table", "value")
                ctx.ob("any text/value", same_bits(r[0][0], x, val, 32), "the symbol is %r, the value %r" % (x, val), "parseargs.cc")
        ctx.ob("any text/accepted", accepted > 0, "no value with prefix %r is accepted" % pre, "parseargs.cc")
    I.models.clear(); I.models.update(saved)
    ctx.extra["conversions of unknown text"] = len(calls)
