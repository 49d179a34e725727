"""C21: text is never written past the end of its buffer."""
from .common import *
from .common import _ai
from . import scen, bounds, chartext
from .scen import I8, I32, I64, PT
from engine import libc
from engine.dom import OBJS, add, sub, compl
EXPLANATION = ("Every function that formats or copies text is followed by the abstract interpreter with texts of any length: names, labels, sections, file names, search directories, source lines and "
               "message parameters are memory of n+1 bytes with a symbolic n. On every path each store must stay inside its object, whose size is the term the code itself computed.")
ASSUMPTIONS = ["texts have no more than 2^20 characters (their lengths fit an int)", "characters converted by sanitize_string are the subject of C27, the argument array of C29"]
SYM = ["name", "scope", "fullname", "is_macro_param", "is_local", "value", "is_initialized", "is_label"]
PROBES = ["O(symbol_table,%s)" % f for f in SYM] + ["Z(symbol_table)", "E(error_max)", "E(ENDSECTION)", "O(dict,table)", "O(dict,number_elements)", "O(dict,size)", "O(element,key)", "O(element,value)", "O(element,next)", "Z(dict)", "Z(element)", "E(type_con)", "E(type_str)", "E(type_op_code)", "E(error_start)", "E(max_line_len)", "O(parse_node,type)", "O(parse_node,op)", "O(parse_node,number_of_ops)",
    "OO(parse_node,id.name,id__name)", "OO(parse_node,macro.name,macro__name)", "OO(parse_node,macro.macro,macro__macro)", "OO(parse_node,macro.macro_params,macro__params)",
    "OO(parse_node,id.i,id__i)", "OO(parse_node,str.value,str__value)", "OO(parse_node,str.len,str__len)", "Z(parse_node)",
    "O(list_table,line)", "O(list_table,output)", "O(list_table,filename)", "O(list_table,next)", "O(list_table,list_directive)", "O(list_table,print_state)", "Z(list_table)",
    "O(instance_data,index)", "O(instance_data,stack_size)", "O(instance_data,item_size)", "O(instance_data,item_array)", "O(stack,instance)", "Z(plus_minus_symbol)", "Z(instance_data)"]
MAXLEN = 1 << 20

class Texts:
    def __init__(self, ctx):
        self.ctx = ctx
        self.S = S = scen.Scn(ctx, sorted(set(PROBES)))
        self.I = I = S.I
        self.W = bounds.Bounds(I)
        self.keep = set()
        self.n = 0
    def text(self, st, name, lo=1, first=None, size=None):
        """memory of exactly length + 1 bytes"""
        I = self.I
        n = fresh("length of the " + name, 64, lo, MAXLEN)
        o = I.alloc(name, 'heap', add(n, 1) if size is None else size, 'havoc'); st.nonnull = st.nonnull | {o.id}
        p = Ptr(o.id, 0)
        if first is not None: self.keep.add(o.id); I.store(st, p, ord(first), I8)
        st.slen[(o.id, 0)] = n
        st.tags[('txt', o.id, 0)] = (('str', p, n),)
        if lo: st.slen[(o.id, 1)] = sub(n, 1); st.tags[('txt', o.id, 1)] = (('str', Ptr(o.id, 1), sub(n, 1)),)
        return p
    def block(self, st, name, size, init='havoc'):
        o = self.I.alloc(name, 'heap', size, init); st.nonnull = st.nonnull | {o.id}
        return Ptr(o.id, 0)
    def drive(self, key, fn, build, where, models=None, must=True):
        S, I, ctx = self.S, self.I, self.ctx
        if ctx.fn(fn) is None: ctx.need(not must, fn); return
        st = S.start()
        args = build(st)
        if isinstance(args, tuple): st, args = args
        saved = dict(I.models)
        for k, v in (models or {}).items():
            if v is None: I.models.pop(k, None)
            else: I.models[k] = v
        mark = st.ev
        I.exits.clear()
        try: r = self.W.call(ctx, S, key, fn, args, st)
        finally: I.models.clear(); I.models.update(saved)
        ends = [s for s, v in r] + [e[0] for e in I.exits]
        I.exits.clear()
        bad = {}
        for s in ends:
            for e in self.W.bad(s, mark): bad.setdefault((e[1], e[0]), e)
        ctx.ob(key, not bad, "; ".join("%s at %s" % (self.W.tell(e), e[1]) for e in list(bad.values())[:3]), list(bad)[0][0] if bad else where)
        self.n += 1
        return r

def run(ctx):
    ctx.rule = "every store of text at an offset o into an object of n bytes: 0 <= o and o + size <= n on every path, for texts of any length"
    T = Texts(ctx)
    scenarios(T)
    finish(T)

def scenarios(T):
    ctx = T.ctx; S, I, P, W = T.S, T.I, ctx.P, T.W
    I.unroll_decided = 64; I.thresholds = True; I.partition = False
    I.forget = lambda o: o.id not in T.keep and not isinstance(o.size, int) or o.kind == 'global' and o.size > 1000
    Z = lambda s: P("size_" + s)
    # --- stand-ins for what other checks decide: the dictionary (C16)
    known = T.block(S.base, "known entry", Z("symbol_table"))
    def found(I, st, a, inst):
        s2 = st.fork(); s2.forks += 1; st.forks += 1
        return [(st, known), (s2, NULL)]
    def entry(I, st, a, inst):
        o = I.alloc("entry", 'heap', Z("symbol_table"), 'havoc'); st.nonnull = st.nonnull | {o.id}
        return Ptr(o.id, 0)
    D = {"dict_search": found, "dict_insert": entry, "sanitize_symbol": lambda I, st, a, inst: None}
    SY = {"add_symbol": entry, "look_up_symbol": found, "set_symbol_value": lambda I, st, a, inst: a[0], "dict_search": found, "dict_insert": entry}
    scopes = ((0, "outside sections"), (1, "in a section"))
    def around(st, sc, lab):
        S.set(st, "current_scope", T.text(st, "section") if sc else NULL)
        S.set(st, "last_label", T.text(st, "label") if lab else NULL)
        S.set(st, "current_file_name", T.text(st, "file name"))
    def fgets(I, st, a, inst):
        if not isinstance(a[0], Ptr) or a[0].o is None: st.event('nullderef', I.where(inst), 'fgets'); return NULL
        I.check_access(st, a[0], a[1], inst, 'store')
        c = st.wcells(a[0].o)
        for k in [k for k in c if k != 'D']: del c[k]
        c['D'] = ((0, None, None),)
        for k in [k for k in st.slen if k[0] == a[0].o]: del st.slen[k]
        return lin_choice(a[0])
    lin_choice = lambda p: p
    for n in ("stricmp", "strcasecmp", "strcmp"): I.models[n] = lambda I, st, a, inst: fresh("compared", 32)
    # --- symbols
    for sc, scn in scopes:
        for lab in (0, 1):
            for first in (None, '@', '.', '\\', '+'):
                def build(st):
                    around(st, sc, lab)
                    return [T.text(st, "name", first=first)]
                k = "%s, %s, name %s" % (scn, "behind a label" if lab else "no label", "beginning with %s" % first if first else "")
                T.drive("enter a symbol: " + k, "add_symbol", build, "sym.cc (add_symbol)", D)
                if first != '+': T.drive("look a symbol up: " + k, "look_up_symbol", build, "sym.cc (look_up_symbol)", D)
    for sc, scn in scopes:
        for par in (0, 1):
            def build(st):
                y = T.block(st, "symbol", Z("symbol_table"), 'zero')
                nm = T.text(st, "dotted name", lo=3); T.keep.add(nm.o)
                n = st.slen[(nm.o, 0)]
                for back, ch in ((2, '.'), (1, 'b'), (0, '\0')): I.store(st, Ptr(nm.o, sub(n, back)), ord(ch), I8)
                st.slen[(nm.o, 0)] = n; st.tags[('txt', nm.o, 0)] = (('str', nm, n),)
                S.wr(st, y, "symbol_table", "name", nm, PT)
                S.wr(st, y, "symbol_table", "scope", T.text(st, "section") if sc else NULL, PT)
                S.wr(st, y, "symbol_table", "is_macro_param", par, I8)
                return [y]
            T.drive("take a dotted name apart: %s%s" % (scn, ", parameter" if par else ""), "sanitize_symbol", build, "sym.cc (sanitize_symbol)",
                    {"strstr": lambda I, st, a, inst: Ptr(a[0].o, sub(st.slen.get((a[0].o, 0), 2), 2)) if isinstance(a[0], Ptr) else NULL})
    T.drive("name of a macro parameter", "look_up_macro_param", lambda st: [fresh("number", 32)], "sym.cc (look_up_macro_param)", D)
    for lab in (0, 1):
        def build(st):
            S.set(st, "yylineno", fresh("line", 32))
            return [T.text(st, "name"), T.text(st, "label") if lab else NULL]
        T.drive("name of an anonymous label, %s" % ("label" if lab else "no label"), "format_local_plus_minus_sym", build, "sym.cc (format_local_plus_minus_sym)", must=False)
    T.drive("name of a local label", "format_local_sym", lambda st: [T.text(st, "name"), T.text(st, "label")], "sym.cc (format_local_sym)", must=False)
    # values saved for a macro call
    for mx in (fresh("parameters", 32, 0, 1 << 16), 0, 1, 3):
        def build(st):
            S.set(st, "max_macro_param", mx)
            return []
        T.drive("values of macro parameters saved, %s" % (mx if isinstance(mx, int) else "any number"), "push_macro_params", build, "sym.cc (push_macro_params)", D | {"error": lambda I, st, a, inst: None, "yyerror": lambda I, st, a, inst: None})
    # anonymous label tables
    for fn, tab in (("add_plus_symbol", "plus"), ("add_minus_symbol", "minus")):
        for full in (0, 1, 2):
            def build(st):
                size = fresh("table size", 32, 1, 1 << 16)
                grow = fresh("entries", 32, 0, 1 << 16)
                if full == 0: S.set(st, tab + "_symbol_table", NULL); S.set(st, tab + "_symbol_table_size", 0); S.set(st, tab + "_symbol_table_index", 0)
                else:
                    esz = Z("plus_minus_symbol")
                    k = fresh("free", 32, 1 if full == 1 else 3, 1 << 16)
                    st.assume(sub(size, k), ((0, 1 << 16),))
                    S.set(st, tab + "_symbol_table", T.block(st, tab + " table", scale(size, esz)))
                    S.set(st, tab + "_symbol_table_size", size); S.set(st, tab + "_symbol_table_index", sub(size, k))
                return [T.text(st, "file name"), fresh("line", 32), fresh("value", 32)]
            T.drive("enter a %s label, %s" % (tab, ("first one", "any number of entries", "room left")[full]), fn, build, "sym.cc (%s)" % fn, {"qsort": lambda I, st, a, inst: None})
    # --- messages
    lo, hi = P("error_start"), P("error_max")
    for e in range(lo + 1, hi):
        def build(st):
            S.set(st, "internal_buffer", T.block(st, "line buffer", P("max_line_len")))
            return [e, T.text(st, "parameter", lo=0)]
        T.drive("message %d with any parameter" % e, "error2", build, "error.cc (error2)")
    def build(st):
        S.set(st, "internal_buffer", T.block(st, "line buffer", P("max_line_len")))
        S.set(st, "yyin", S.file(I, "source")); S.set(st, "current_file_name", T.text(st, "file name")); S.set(st, "yylineno", fresh("line", 32, 0, 1 << 20))
        return [T.text(st, "message")]
    T.drive("source lines shown with a message", "yymessage", build, "error.cc (yymessage)", {"yymessage": None, "fgets": fgets})
    # --- macros and sections
    def node(st, **f):
        p = T.block(st, "node", Z("parse_node"))
        for k, v in f.items(): I.store(st, Ptr(p.o, P("off_parse_node__" + k)), v, PT if isinstance(v, Ptr) else I32)
        return p
    def ops(st, *xs):
        a = T.block(st, "operands", 8 * max(1, len(xs)))
        for j, x in enumerate(xs): I.store(st, Ptr(a.o, 8 * j), x, PT)
        return a
    def buf(st): S.set(st, "internal_buffer", T.block(st, "line buffer", P("max_line_len")))
    for lab in (0, 1):
        def build(st):
            around(st, 0, lab); buf(st)
            q = T.block(st, "arguments", Z("instance_data")); k = fresh("arguments", 64, -1, 1 << 20)
            S.wr(st, q, "instance_data", "index", k, I64); S.wr(st, q, "instance_data", "item_size", 4, I64); S.wr(st, q, "instance_data", "item_array", T.block(st, "items", scale(add(k, 1), 4)), PT)
            st, sp = S.one("create_stack", [4], st); S.wr(st, sp, "stack", "instance", q, PT)
            S.set(st, "macro_arguments", sp); S.set(st, "macro_parameter_index", fresh("parameters", 32, 0, 1 << 16)); S.set(st, "max_macro_param", 0)
            return st, [node(st, macro__name=T.text(st, "macro name"), macro__macro=NULL, macro__params=NULL)]
        T.drive("label scope of a macro call%s" % (", behind a label" if lab else ""), "expand_macro_expansion_node", build, "expand.cc (expand_macro_expansion_node)", SY | {"push_macro_params": lambda I, st, a, inst: None, "pop_macro_params": lambda I, st, a, inst: None})
        def build(st):
            around(st, 0, lab); buf(st)
            y = T.block(st, "symbol", Z("symbol_table"))
            return [node(st, id__name=T.text(st, "macro name"), id__i=y)]
        T.drive("label scope of a macro%s" % (", behind a label" if lab else ""), "expand_macro_id_node", build, "expand.cc (expand_macro_id_node)", SY | {"expand_node": lambda I, st, a, inst: 0, "expand_id_node": lambda I, st, a, inst: 0})
    for sc, scn in scopes:
        def build(st):
            around(st, sc, 0)
            return [node(st, op=ops(st, node(st, id__name=T.text(st, "section name"))), number_of_ops=1)]
        T.drive("begin of a section, " + scn, "expand_operator_section_node", build, "expand.cc (expand_operator_section_node)", SY)
        for mode in (0, 1):
            def build(st):
                around(st, sc, 0)
                y = T.block(st, "symbol", Z("symbol_table"))
                S.wr(st, y, "symbol_table", "name", T.text(st, "name"), PT); S.wr(st, y, "symbol_table", "scope", T.text(st, "section of the symbol") if mode else NULL, PT)
                return [node(st, op=ops(st, node(st, id__name=T.text(st, "name"), id__i=y), node(st)), number_of_ops=2)]
            T.drive("value of a symbol %s, %s" % ("of a section" if mode else "without section", scn), "expand_operator_equ_node", build, "expand.cc (expand_operator_equ_node)",
                    SY | {"expand_node": lambda I, st, a, inst: fresh("value", 32)})
    # --- nodes
    for fn in ("id_node", "label_node", "macro_id_node"):
        for first in (None, '@', '+', '\\'):
            for sc, scn in scopes:
                for lab in (0, 1):
                    def build(st):
                        around(st, sc, lab)
                        S.set(st, "in_macro_definition", fresh("in macro", 32, 0, 2))
                        return [T.text(st, "name", first=first)]
                    T.drive("%s of a name%s, %s%s" % (fn, " beginning with " + first if first else "", scn, ", behind a label" if lab else ""), fn, build, "node.cc (%s)" % fn, SY)
    T.drive("call of a macro", "macro_expand_node", lambda st: [T.text(st, "name"), NULL], "node.cc (macro_expand_node)", SY)
    T.drive("node of a string", "string_node", lambda st: [T.text(st, "string", lo=2)], "node.cc (string_node)", {"sanitize_string": lambda I, st, a, inst: T.text(st, "converted string", lo=0)})
    # --- files
    I.stream_open = lambda I, st, a, inst: fresh("stream", 32, 0, 1)
    def files(key, fn, build):
        """a 0 stored behind copied text ends it there at the latest"""
        plain = I.store
        def store(st, p, v, ty, inst=None):
            plain(st, p, v, ty, inst)
            if isinstance(p, Ptr) and p.o is not None and I.forget(OBJS[p.o]):
                if isinstance(v, int) and v == 0 and ty.size == 1: st.tags[('end', p.o)] = p.off
                else: st.tags.pop(('end', p.o), None)
        def strcat(I, st, a, inst):
            n0 = st.tags.get(('end', a[0].o)) if isinstance(a[0], Ptr) and a[0].off == 0 else None
            if n0 is None: n0 = libc.str_len(I, st, a[0], inst)
            libc.put_text(I, st, a[0], add(n0, libc.str_len(I, st, a[1], inst)), (('pad', 0),), inst, 'strcat')
            st.tags.pop(('end', a[0].o), None); st.slen.pop((a[0].o, 0), None); st.tags.pop(('txt', a[0].o, 0), None)
            return a[0]
        I.store = store; u = I.unroll; I.unroll = 1
        try: T.drive(key, fn, build, "file.cc (%s)" % fn, {"strcat": strcat})
        finally: del I.store; I.unroll = u
    for dirs in (0, 1):
        def build(st):
            S.set(st, "directories", T.text(st, "search directories") if dirs else NULL)
            return [T.text(st, "file name"), S.text(st, "r")]
        files("name of a file with %s" % ("search directories" if dirs else "no directory"), "open_file", build)
        def build(st):
            S.set(st, "directories", T.text(st, "search directories") if dirs else NULL)
            return [T.block(st, "stream", 1024), T.text(st, "file name"), 0]
        files("name of a log file with %s" % ("search directories" if dirs else "no directory"), "open_file_stream", build)
    def build(st):
        buf(st); S.set(st, "directories", NULL)
        return [T.text(st, "file name")]
    source = S.file(I, "source"); spare = T.block(S.base, "list node", 4096); line = T.block(S.base, "line", 4096)
    T.drive("lines of a source file", "read_file_lines", build, "file.cc (read_file_lines)",
            {"malloc": lambda I, st, a, inst: spare, "strdup": lambda I, st, a, inst: line, "fgets": fgets, "open_file": lambda I, st, a, inst: source})
    # --- tables of the symbols
    for k in range(4):
        for fn in ("dump_symbols", "dump_unresolved_symbols"):
            def build(st):
                d = T.block(st, "dictionary", Z("dict"), 'zero'); tab = T.block(st, "buckets", 16, 'zero')
                S.wr(st, d, "dict", "table", tab, PT); S.wr(st, d, "dict", "number_elements", k, I64); S.wr(st, d, "dict", "size", 2, I64)
                for j in range(k):
                    y = T.block(st, "symbol", Z("symbol_table")); S.wr(st, y, "symbol_table", "name", S.text(st, "name%d" % j), PT)
                    e = T.block(st, "element", Z("element"), 'zero'); S.wr(st, e, "element", "value", y, PT); S.wr(st, e, "element", "key", S.text(st, "name%d" % j), PT)
                    b = Ptr(tab.o, 8 * (j % 2)); S.wr(st, e, "element", "next", I.load(st, b, PT), PT); I.store(st, b, e, PT)
                S.set(st, "symbol_dictionary", d); S.set(st, "pass", fresh("pass", 32, 1, 50))
                return [S.file(I, "symbols")]
            T.drive("%s, %d symbols" % (fn, k), fn, build, "sym.cc (%s)" % fn, {"qsort": lambda I, st, a, inst: None, "is_local_sym": lambda I, st, a, inst: fresh("local", 32, 0, 1)}, must=False)
    # --- operands of nodes
    for k in range(6):
        T.drive("operator with %d operands" % k, "operator_node", lambda st: [P("ENDSECTION"), k] + [node(st) for _ in range(k)], "node.cc (operator_node)")
    for k in range(3):
        T.drive("instruction with %d operands" % k, "opcode_node", lambda st: [0, 0, k] + [S.wr(st, q := T.block(st, "operand", Z("parse_node"), "zero"), "parse_node", "type", P("type_con"), I32) or q for _ in range(k)], "node.cc (opcode_node)")
    T.drive("macro call node", "macro_expand_node", lambda st: [T.text(st, "name"), node(st)], "node.cc (macro_expand_node)", SY)
    for k in (0, 1): T.drive("data node", "data_node", lambda st: [1 + k, node(st)], "node.cc (data_node)")
    # --- stacks
    for how in ("empty", "some"):
        def build(st):
            q = T.block(st, "stack", Z("instance_data"))
            isz = 8
            size = fresh("stack size", 64, 1, 1 << 30); k = fresh("free", 64, 0, 1 << 30)
            if how == "empty": vals = {"index": -1, "stack_size": 0, "item_array": NULL}
            else:
                st.assume(sub(size, k), ((1, 1 << 30),))
                vals = {"index": sub(sub(size, k), 1), "stack_size": size, "item_array": T.block(st, "items", scale(size, isz))}
            vals["item_size"] = isz
            for f, v in vals.items(): S.wr(st, q, "instance_data", f, v, PT if isinstance(v, Ptr) else I64)
            return [q, T.block(st, "value", isz)]
        T.drive("push, stack with %s entries" % how, "push", build, "stacks.cc (push)")
    # --- rows of the listing
    def listed(I, st, a, inst):
        return T.block(st, "row", Z("list_table"))
    def printable(I, st, a, inst):
        s2 = st.fork(); s2.forks += 1; st.forks += 1
        return [x for x in ((st, 1), (s2, 0)) if x[0].assume(a[0], ((32, 126),) if x[1] else compl(((32, 126),)))]
    G = {"generate_list_node": None, "add_list": listed, "expand_node": lambda I, st, a, inst: fresh("value", 32), "isprint": printable,
         "error": lambda I, st, a, inst: None}
    def lists(st, size):
        S.set(st, "data_size", size); S.set(st, "current_file_name", T.text(st, "file name")); S.set(st, "yylineno", fresh("line", 32)); S.set(st, "program_counter", fresh("pc", 32))
        S.set(st, "list_head", NULL)
    kept = dict(I.models), I.forget, I.thresholds, I.partition
    chartext.install(I); I.forget, I.thresholds, I.partition = None, False, True
    for size in (0, 1, 2):
        def build(st):
            lists(st, size)
            return [node(st, type=P("type_con"))]
        T.drive("row of a value, data size %d" % size, "generate_list_node", build, "node.cc (generate_list_node)", G)
        for n in range(8):
            def build(st):
                lists(st, size)
                return [node(st, type=P("type_str"), str__value=T.block(st, "string", n + 1), str__len=n)]
            T.drive("rows of a string of %d characters, data size %d" % (n, size), "generate_list_node", build, "node.cc (generate_list_node)", G)
    I.models.clear(); I.models.update(kept[0]); I.forget, I.thresholds, I.partition = kept[1:]

def finish(T):
    ctx, W = T.ctx, T.W
    ctx.need(W.count > 200, "stores of text")
    ctx.extra["stores"] = ["%s:%d" % x for x in sorted(W.seen)]
    ctx.extra["accesses"] = W.count
