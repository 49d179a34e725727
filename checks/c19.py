"""C19: leaving an included file resumes the including file where it stopped."""
from .common import *
from . import front, words, scen, driver, labels
from .front import I32, I64, PT
EXPLANATION = ("The function behind the include directive and the scanner's end-of-file action are followed by the abstract interpreter from a stack of including "
               "files of any depth with arbitrary contents, arbitrary current file and line: what is saved, where reading starts, what is restored and what is left "
               "untouched; one after the other they restore the including file, so that any nesting follows by induction on the stack.")
ASSUMPTIONS = ["flex's own buffer stack (yypush_buffer_state, yypop_buffer_state) keeps each buffer and its read position", "the stack of including files is the global file_stack"]
PROBES = ["O(instance_data,index)", "O(instance_data,stack_size)", "O(instance_data,item_size)", "O(instance_data,item_array)", "O(stack,instance)",
          "O(file_line_stack_entry,file)", "O(file_line_stack_entry,line)", "Z(file_line_stack_entry)", "E(INC)", "E(EOL)", "E(STRING_LITERAL)"] + driver.Driver.PROBES + labels.PROBES

def run(ctx):
    ctx.rule = "include: file name and line pushed, nothing below changed, reading starts at the first line of exactly the named file, failure to open is an error; end of file: top entry becomes current file and line, one entry popped, one buffer left; outermost file: reading ends"
    F = front.Front(ctx, PROBES); S, I = F.S, F.I
    SZ = ctx.P("size_file_line_stack_entry")
    E = "file_line_stack_entry"
    starts = main_files(ctx)
    if not ctx.ob("first line of a main file", len(starts) == 1, "main files start at lines %s" % sorted(map(repr, starts)), "pass.cc parse_pass"): return
    start_line = next(iter(starts))
    opened = {'ok': True}
    def open_file(I, st, a, inst):
        from engine.libc import cstr
        st.event('open', a[0], cstr(I, st, a[0]) if isinstance(a[0], Ptr) else None)
        if opened['ok']:
            st.tags['newfile'] = p = S.file(I, "included file")
            st.nonnull = st.nonnull | {p.o}
            return p
        return NULL
    ctx.fn("open_file"); I.models["open_file"] = open_file
    def create(I, st, a, inst):
        p = S.file(I, "buffer"); st.nonnull = st.nonnull | {p.o}
        st.tags[('buffer', p.o)] = a[0]; return p
    I.models["yy_create_buffer"] = create
    def pushbuf(I, st, a, inst): st.event('pushbuf', a[0])
    I.models["yypush_buffer_state"] = pushbuf
    def inst(st): return S.rd(st, S.get(st, "file_stack"), "stack", "instance", PT)
    def state(shape, cond=0, here="current.asm"):
        st = F.state(cond); F.last_token(st, ".x")
        q = inst(st)
        if S.rd(st, q, "instance_data", "item_size", I64) != SZ: raise Broken("the stack of including files holds other items")
        if shape == "empty": idx = -1
        else:
            n = 1 << 20
            idx = fresh("depth", 64, 0, n - 2); size = fresh("capacity", 64, 1, n)
            st.assume(sub(size, idx), ((2, n),) if shape == "any" else ((1, 1),))
            o = I.alloc("including files", 'heap', scale(size, SZ), 'havoc'); st.nonnull = st.nonnull | {o.id}
            for f, v, t in (("index", idx, I64), ("stack_size", size, I64), ("item_array", Ptr(o.id, 0), PT)): S.wr(st, q, "instance_data", f, v, t)
        name = S.text(st, here); line = fresh("line", 32, 0, (1 << 31) - 16)
        S.set(st, "current_file_name", name); S.set(st, "yylineno", line)
        return st, idx, name, line
    def top(st):
        q = inst(st)
        return S.rd(st, q, "instance_data", "index", I64), S.rd(st, q, "instance_data", "item_array", PT)
    def entry(st, k, f, t):
        i, a = top(st)
        return I.load(st, Ptr(a.o, add(add(a.off, scale(k, SZ)), S.fld(E, f))), t)
    # ---------------------------------------------------------- the directive
    for shape, ok, here in [(x, y, "current.asm") for x in ("empty", "any", "full") for y in (True, False)] + [("empty", True, "inc.asm"), ("any", True, "inc.asm"), ("any", True, "INC.asm"), ("any", True, "sub/inc.asm")]:
        if True:
            opened['ok'] = ok
            key = "include, %s%s" % ({"empty": "from the main file", "any": "from any depth", "full": "stack at its capacity"}[shape], "" if ok else ", file missing") + ("" if here == "current.asm" else ", itself called %s" % here)
            st, idx, name, line = state(shape, 0, here)
            if shape != "empty": lo_f, lo_l = entry(st, idx, "file", PT), entry(st, idx, "line", I32)
            S.set(st, "error_count", 0)
            st, node = include_node(ctx, S, st)
            n0 = len(I.exits); 
            outs = I.exec(ctx.fn("expand_node"), [node], st)
            ex = I.exits[n0:]
            if not ok:
                good = not outs and ex and all(subset(s.rset(v), ((-INF, -1), (1, INF))) for s, v in [exit_of(e) for e in ex])
                ctx.ob(key, good, "assembly goes on after the file could not be opened", "file.cc open_include_file")
                for e in ex:
                    s, v = exit_of(e)
                    ctx.ob(key + "/reported", s.rng(S.get(s, "error_count", I32))[0] > 0, "no error is reported", "file.cc open_include_file")
                I.exits.clear(); continue
            I.exits.clear()
            ctx.need(len(outs), "outcome of the include directive")
            for s, r in outs:
                W = "file.cc open_include_file"
                i, a = top(s)
                ctx.ob(key + "/depth", same_bits(s, i, add(idx, 1), 64), "depth goes from %r to %r" % (idx, i), W)
                ctx.ob(key + "/saved file", entry(s, add(idx, 1), "file", PT) == name, "saves another file name", W)
                ctx.ob(key + "/saved line", same_bits(s, entry(s, add(idx, 1), "line", I32), line, 32), "saves line %r instead of %r" % (entry(s, add(idx, 1), "line", I32), line), W)
                if shape != "empty":
                    ctx.ob(key + "/outer files kept", entry(s, idx, "file", PT) == lo_f and same_bits(s, entry(s, idx, "line", I32), lo_l, 32), "the entry of an outer file changes", W)
                ops = [e for e in s.events() if e[0] == 'open']
                ctx.ob(key + "/file", [e[2] for e in ops] in (["inc.asm"], [b"inc.asm"]), "opens %r" % [e[2] for e in ops], W)
                cur = S.get(s, "current_file_name")
                from engine.libc import cstr
                ctx.ob(key + "/current file", isinstance(cur, Ptr) and cstr(I, s, cur) in ("inc.asm", b"inc.asm"), "the current file is not the included one", W)
                ctx.ob(key + "/first line", same_bits(s, S.get(s, "yylineno", I32), start_line, 32), "line counting starts at %r, in the main file at %r" % (S.get(s, "yylineno", I32), start_line), W)
                pb = [e[1] for e in s.events() if e[0] == 'pushbuf']
                ctx.ob(key + "/read next", len(pb) == 1 and s.tags.get(('buffer', pb[0].o)) == s.tags.get('newfile'), "the scanner is not switched to the opened file exactly once", W)
                # its end
                if shape == "any": leave(ctx, F, S, s, key + ", then its end", name, line, idx, top, entry)
    opened['ok'] = True
    # ------------------------------------------------------------ end of file
    for cname, cond in sorted(F.scan.conds.items()):
        for shape, here in (("any", "current.asm"), ("any", "outer.asm"), ("empty", "current.asm")):
            st, idx, name, line = state(shape, cond, here)
            key = "end of %s, scanner in mode %s" % ("an included file" if shape == "any" else "the main file", cname)
            if shape == "any":
                f0 = S.text(st, "outer.asm"); l0 = fresh("saved line", 32, 0, (1 << 31) - 16)
                i, a = top(st)
                I.store(st, Ptr(a.o, add(add(a.off, scale(idx, SZ)), S.fld(E, "file"))), f0, PT)
                I.store(st, Ptr(a.o, add(add(a.off, scale(idx, SZ)), S.fld(E, "line"))), l0, I32)
                leave(ctx, F, S, st, key, f0, l0, add(idx, -1), top, entry, cond)
            else:
                W = "pasm.l <<EOF>>"
                for kind, s, v in eof(F, st, cond, False):
                    i, a = top(s)
                    ctx.ob(key, kind == "token" and v == 0, "the scanner goes on after the last file", W)
                    ctx.ob(key + "/stack", same_bits(s, i, -1, 64), "an entry is taken from the empty stack of files", W)
    # the statement is expanded as soon as its line has been read
    F.build_terms()
    st = F.state(); p = S.text(st, '"x"')
    T = ctx.P
    for stk, s, i, status in F.parse([(T("INC"), None), (T("STRING_LITERAL"), p), (T("EOL"), None)], [(0, None)], st):
        ev = [e for e in s.events() if e[0] == 'expand']
        ctx.ob("include statement", status == 'done' and len(ev) == 1, "the directive is expanded only after text behind its line has been read (%s)" % (status,), "pasm.y")
    ctx.extra["scanner_modes"] = sorted(F.scan.conds)

def main_files(ctx):
    """the line each file of the command line starts with; each is read under its own name"""
    from engine.libc import cstr
    D = driver.Driver(ctx); S = D.S; I = D.I
    starts = set(); seen = []
    def yyparse(I, st, a, inst):
        l = S.get(st, "yylineno", I32); r = st.rset(l) if isinstance(l, (int, Lin)) else ()
        starts.add(r[0][0] if len(r) == 1 and r[0][0] == r[0][1] else l)
        seen.append(cstr(I, st, S.get(st, "current_file_name")))
        S.set(st, "yylineno", fresh("line after the file", 32, 0, 1 << 20))
        return fresh("parsed", 32, 0, 2)
    I.models["yyparse"] = yyparse
    st = D.start()
    st, _ = S.one("parse_arguments", [3, D.argv(st, ["pasm", "a.asm", "b.asm"])], st)
    S.set(st, "final_pass", 0); S.set(st, "yylineno", fresh("line before", 32, 0, 1 << 20))
    S.call("parse_pass", [], st)
    I.exits.clear()
    names = {n.decode() if isinstance(n, bytes) else n for n in seen}
    ctx.ob("files of the command line", names == {"a.asm", "b.asm"}, "are read under the names %r" % sorted(map(repr, names)), "pass.cc parse_pass")
    return starts

def exit_of(e):
    st = [x for x in e if hasattr(x, 'rset')][0]
    v = [x for x in e if isinstance(x, (int, Lin))]
    return st, v[0] if v else 0

def include_node(ctx, S, st):
    st, a = S.one("string_node", [S.text(st, '"inc.asm"')], st)
    return S.one("operator_node", [ctx.P("INC"), 1, a], st)

def eof(F, st, cond, more):
    """the end-of-file action; more: a file remains to be read"""
    S = F.S
    arr = F.I.alloc("buffers", 'heap', 64, 'undef'); st.nonnull = st.nonnull | {arr.id}
    if F.ctx.mod.gv("yy_buffer_stack") is None or F.ctx.mod.gv("yy_buffer_stack_top") is None: raise Broken("flex buffer stack not found")
    b = S.file(F.I, "outer buffer"); st.nonnull = st.nonnull | {b.o}
    st.wcells(arr.id)[0] = (8, b if more else NULL)
    S.set(st, "yy_buffer_stack", Ptr(arr.id, 0)); S.set(st, "yy_buffer_stack_top", 0)
    F.yytext(st, "")
    outs = F.act(F.scan.eof_rule(cond), st)
    if not outs: raise Broken("no outcome of the end-of-file action in mode %d" % cond)
    return outs

def leave(ctx, F, S, st, key, file, line, idx, top, entry, cond=0):
    W = "pasm.l <<EOF>>"
    st = st.fork(); mark = st.ev
    for kind, s, v in eof(F, st, cond, True):
        i, a = top(s)
        ctx.ob(key + "/goes on", kind == "next", "reading ends instead of going on in the including file", W)
        ctx.ob(key + "/depth", same_bits(s, i, idx, 64), "depth becomes %r instead of %r" % (i, idx), W)
        ctx.ob(key + "/file", S.get(s, "current_file_name") == file, "another file name is restored", W)
        ctx.ob(key + "/line", same_bits(s, S.get(s, "yylineno", I32), line, 32), "line %r is restored instead of %r" % (S.get(s, "yylineno", I32), line), W)
        n = sum(1 for e in scen.ev_since(s, mark) if e[0] == 'popbuf')
        ctx.ob(key + "/buffer", n == 1, "%d scanner buffers are left" % n, W)
