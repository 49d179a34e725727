"""C35: loop statements repeat their body exactly as stated."""
from .common import *
from .common import _ai
from . import scen, loops
from .scen import I8, I32, PT
EXPLANATION = ("Every loop statement is built by the real node constructors and followed by the abstract interpreter through the real expander with symbolic bounds, "
               "steps and conditions; the body is a stand-in that records its expansions and moves the location counter (and the loop variable) arbitrarily. "
               "Register loops: the generated instructions of every path are evaluated with the processor's rules for all 256 x 256 bounds and every register value in between, "
               "processor flags unknown after the body.  Directive loops: the order of conditions and bodies of every path is compared with the statement's meaning.")
ASSUMPTIONS = ["the body of a register loop leaves the register as it found it", "directive loops are followed for two expansions of the body; the second starts from an arbitrary value of the variable, "
               "counter and conditions, so that it stands for every later one"]
WHERE = "expand.cc"
NZ = ((-INF, -1), (1, INF))

def run(ctx):
    ctx.rule = ("for all start and end values 0..255: the generated code runs the body with exactly the values from start to end and then falls through; for all bounds, steps and conditions: "
                "the body of a directive loop is expanded exactly while its condition holds, and a loop that is out of range, nested in its own register or cannot end is reported")
    L = loops.Loops(ctx)
    for tok in ("REGX", "REGY"): register(ctx, L, tok)
    conditions(ctx, L)
    counting(ctx, L)

def term(v, st, env):
    """value of a linear term for chosen values of the bounds"""
    if isinstance(v, int): return v
    if not isinstance(v, Lin): return None
    t = v.k
    for a, c in v.t:
        if a not in env: 
            s = st.atom_set(a)
            if len(s) == 1 and s[0][0] == s[0][1]: t += c * s[0][0]; continue
            return None
        t += c * env[a]
    return t

def simulate(code, reg, st, env, r, start_pc):
    """run straight-line code ending in a branch -> (next register value, 'loop'|'exit'|description)"""
    C = Zf = N = None
    for e in code:
        op, mode, v = e[1], e[2], e[3]
        if op in ("in" + reg, "de" + reg):
            r = None if r is None else (r + (1 if op[0] == "i" else -1)) & 255
            if r is not None: Zf = r == 0; N = r > 127
        elif op == "ld" + reg:
            r = term(v, st, env)
            if r is None or not 0 <= r <= 255: return None, "the operand of %s is %r" % (op, v)
            Zf = r == 0; N = r > 127
        elif op == "cp" + reg:
            m = term(v, st, env)
            if m is None or not -254 <= m <= 255 or r is None: return None, "the operand of %s is %r" % (op, v)
            m &= 255
            C = r >= m; Zf = r == m; N = ((r - m) & 255) > 127
        elif op == "sec": C = True
        elif op == "clc": C = False
        elif op in ("bcc", "bcs", "bne", "beq", "bpl", "bmi"):
            flag, want = {"bcc": (C, False), "bcs": (C, True), "bne": (Zf, False), "beq": (Zf, True), "bpl": (N, False), "bmi": (N, True)}[op]
            if flag is None: return r, "the branch %s depends on a flag the loop has not set" % op
            if flag == want:
                if v != start_pc: return r, "the branch does not go to the start of the body"
                return r, "loop"
        else: return r, "unexpected instruction %s" % (op,)
    return r, "exit"

def register(ctx, L, tok):
    S, I = L.S, L.I
    reg = tok[-1].lower()
    L.limit = 1
    L.after = None
    for inc, word in ((1, "to"), (-1, "downto")):
        key = "%s %s" % (tok, word)
        st = L.begin()
        a, b = fresh("start", 32), fresh("end", 32)
        st, na = L.const(st, a); st, nb = L.const(st, b); st, nb2 = L.body(st); st, ni = L.const(st, inc)
        st, n = L.op(st, tok, na, nb, nb2, ni)
        e0 = S.get(st, "error_count")
        IN = ((0, 255),)
        npairs = 0
        for s, ev, how in L.run(st, n):
            ra, rb = s.rset(a), s.rset(b)
            err = any(e[0] == 'message' for e in ev)
            code = [e for e in ev if e[0] in ('ins', 'body')]
            where = code[0][4 if code[0][0] == 'ins' else 3] if code else WHERE
            if how == 'cut':
                ctx.ob(key + "/once", False, "the body is expanded more than once", where); continue
            if err:
                ctx.ob(key + "/rejected", how == 'done' and not code and (not inter(ra, IN) or not inter(rb, IN)),
                       "start %r, end %r: rejected%s" % (ra, rb, " after code was generated" if code else ""), WHERE)
                continue
            if how != 'done':
                ctx.ob(key + "/ends", False, "the assembler stops", WHERE); continue
            if not ctx.ob(key + "/range", subset(ra, IN) and subset(rb, IN), "start %r, end %r are accepted" % (ra, rb), where): continue
            d = s.rset(sub(a, b))       # start - end
            neg = ((-255, -1),) if inc > 0 else ((1, 255),)
            run_ = inter(d, ((-255, 0),) if inc > 0 else ((0, 255),)); none = inter(d, ((1, 255),) if inc > 0 else ((-255, -1),))
            if not code:
                ctx.ob(key + "/empty", not run_, "no code although start - end may be %r" % (run_,), WHERE); continue
            if not ctx.ob(key + "/executed", not none, "code is generated although start - end may be %r" % (none,), where): continue
            bi = [k for k, e in enumerate(code) if e[0] == 'body']
            if not ctx.ob(key + "/body", len(bi) == 1, "the body is expanded %d times" % len(bi), where): continue
            pre, post = code[:bi[0]], code[bi[0] + 1:]
            start_pc = code[bi[0]][2]
            atoms = (a.t[0][0], b.t[0][0])
            bad = zero = None
            starts = {}
            for lo, hi in ra:
                for x in range(lo, hi + 1):
                    for lo2, hi2 in rb:
                        for y in range(lo2, hi2 + 1):
                            if any(p <= x - y <= q for p, q in d): starts.setdefault(y, []).append(x)
            modes = {"i": ctx.P("i"), "I": ctx.P("I"), "r": ctx.P("r")}
            for e in pre + post:
                want = "I" if e[1] in ("ldx", "ldy", "cpx", "cpy") else "r" if str(e[1])[0] == "b" else "i"
                ctx.ob(key + "/operand form", e[2] == modes[want], "%s in mode %r" % (e[1], e[2]), e[4])
            for y, xs in starts.items():
                npairs += len(xs)
                for x in xs:
                    r, w = simulate(pre, reg, s, {atoms[0]: x, atoms[1]: y}, None, start_pc)
                    if w != "exit" or r != x: bad = bad or (x, y, "the register holds %r when the body starts%s" % (r, "" if w == "exit" else "; " + w))
                first = min(xs) if inc > 0 else max(xs)
                const = not any(isinstance(e[3], Lin) and atoms[0] in dict(e[3].t) for e in post)
                for x in ([first] if const else xs):
                    env = {atoms[0]: x, atoms[1]: y}
                    r = x
                    while True:
                        nr, w = simulate(post, reg, s, env, r, start_pc)
                        want = "exit" if r == y else "loop"
                        if w != want or (want == "loop" and nr != (r + inc) & 255):
                            t = (x, y, "after the value %d: %s instead of %s" % (r, {"loop": "the body runs again with %r" % (nr,), "exit": "the loop ends"}.get(w, w),
                                                                            "ending" if want == "exit" else "going on with %d" % ((r + inc) & 255)))
                            if y == 0 and inc < 0 and w == "the branch bcs depends on a flag the loop has not set" and len(post) == 2: zero = zero or t
                            else: bad = bad or t
                            break
                        if r == y: break
                        r += inc
            ctx.ob(key, bad is None, bad and "from %d to %d: %s" % bad, where)
            if 0 in starts and inc < 0:
                ctx.ob(key + " 0", zero is None, zero and "from %d to %d: %s" % zero, where)
        ctx.extra[key] = {"pairs of bounds": npairs}
        ctx.need(npairs >= 256 * 257 // 2, "every pair of bounds of " + key)
        # a loop over the same register inside
        for inner in ("REGX", "REGY"):
            st = L.begin()
            st, na = L.const(st, 1); st, nb = L.const(st, 5); st, body = L.body(st); st, ni = L.const(st, 1)
            st, ma = L.const(st, 1); st, mb = L.const(st, 5); st, mi = L.const(st, inc)
            st, m = L.op(st, inner, *((ma, mb, body, mi) if inc > 0 else (mb, ma, body, mi)))
            st, n = L.op(st, tok, na, nb, m, ni)
            for s, ev, how in L.run(st, n):
                err = any(e[0] == 'message' for e in ev); bodies = sum(1 for e in ev if e[0] == 'body')
                if inner == tok: ctx.ob("%s inside %s" % (inner, tok), err and not bodies, "a loop over the same register is %s" % ("expanded" if bodies else "not reported"), WHERE)
                else: ctx.ob("%s inside %s" % (inner, tok), not err and bodies == 1, "a loop over the other register is rejected", WHERE)

def after_too_far(s, ev, k):
    """the location counter after the k-th body"""
    v = s.tags.get(('pc', k))
    return v, s.rset(v) if v is not None else ()

def conditions(ctx, L):
    S = L.S
    L.limit = 2
    TOO = ((0x10000, INF),); OK = ((-INF, 0xFFFF),)
    L.pcmax = 0x1FFFF
    for tok, first, order in (("WHILE", 'cond', (0, 1)), ("REPEAT", 'body', (1, 0)), ("DO", 'body', (1, 0))):
        st = L.begin()
        st, c = L.cond(st); st, b = L.body(st)
        st, n = L.op(st, tok, *((c, b) if order == (0, 1) else (b, c)))
        seen = 0
        for s, ev, how in L.run(st, n):
            seq = [e for e in ev if e[0] in ('cond', 'body')]
            err = any(e[0] == 'message' for e in ev)
            other = [e for e in ev if e[0] in ('ins', 'write')]
            ctx.ob(tok + "/only", not other, "something else is generated: %r" % (other[:1],), WHERE)
            want = first; k = 0; ended = None; bad = None
            for j, e in enumerate(seq):
                if ended: bad = "the %s is expanded after %s" % ({"cond": "condition", "body": "body"}[e[0]], ended); break
                if e[0] != want: bad = "the %s is expanded where the %s is due" % (e[0], want); break
                last = j == len(seq) - 1
                if e[0] == 'cond':
                    v = s.rset(e[1])
                    go = not inter(v, ((0, 0),)) if tok != "REPEAT" else not inter(v, NZ)
                    stop = not inter(v, NZ) if tok != "REPEAT" else not inter(v, ((0, 0),))
                    if last and how == 'cut': break
                    if stop: ended = "the condition ended the loop"
                    elif not go: bad = "the condition is not looked at"; break
                    want = 'body'
                else:
                    k += 1
                    if last and how == 'cut': break
                    pc, r = after_too_far(s, ev, k)
                    if r and not inter(r, OK): ended = "the location counter has left the address space"
                    elif inter(r, TOO): bad = "the location counter is not looked at after the body"; break
                    want = 'cond'
            seen = max(seen, k)
            if not bad and how == 'done' and not ended: bad = "the loop ends although its condition goes on (next: %s)" % want
            if not bad and how == 'exit': bad = "the assembler stops"
            runaway = ended and "address space" in ended
            if not bad and how == 'done' and err != bool(runaway): bad = "an error is reported" if err else "leaving the address space is not reported"
            ctx.ob(tok, bad is None, bad, seq[-1][3 if seq[-1][0] == 'body' else 2] if seq else WHERE)
        ctx.need(seen >= 2, "two expansions of the body of " + tok)
    # conditional statement: one of the two
    for withelse in (1, 0):
        st = L.begin()
        st, c = L.cond(st); st, b1 = L.body(st); st, b2 = L.body(st)
        st, n = L.op(st, "IF", *((c, b1, b2) if withelse else (c, b1)))
        for s, ev, how in L.run(st, n):
            seq = [e for e in ev]
            ok = how == 'done' and seq and seq[0][0] == 'cond' and all(e[0] == 'body' for e in seq[1:])
            if ok:
                v = s.rset(seq[0][1]); t = not inter(v, ((0, 0),)); f = not inter(v, NZ)
                got = [e[1] for e in seq[1:]]
                ok = (t or f) and got == ([b1.o] if t else [b2.o] if withelse else [])
            ctx.ob("IF" + ("/ELSE" if withelse else ""), ok, "the conditional does not select the stated text: %r" % ([e[:2] for e in seq],), WHERE)
    # a list of statements: each once, in order
    st = L.begin()
    st, b1 = L.body(st); st, b2 = L.body(st); st, n = L.op(st, "STATEMENT", b1, b2)
    for s, ev, how in L.run(st, n):
        ctx.ob("statement list", [e[:2] for e in ev] == [('body', b1.o), ('body', b2.o)], "expanded: %r" % ([e[:2] for e in ev],), WHERE)
    L.pcmax = 0xFFFF

MIN, MAX = -(1 << 31), (1 << 31) - 1
def counting(ctx, L):
    S, I = L.S, L.I
    L.limit = 2
    for withstep in (0, 1):
        L.pcmax = 0x1FFFF
        key = "FOR" + (" STEP" if withstep else "")
        st = L.begin()
        a, e = fresh("first", 32), fresh("end", 32)
        stp = fresh("step", 32) if withstep else 1
        st, y = L.var(st, "v", 7)
        L.hook = lambda s: S.rd(s, y, "symbol_table", "value")
        def after(s):
            v = fresh("now", 32)
            s.tags['now', s.tags['bodies']] = v
            S.wr(s, y, "symbol_table", "value", v)
        L.after = after
        st, nv = S.one("id_node", [S.text(st, "v")], st); st, na = L.const(st, a)
        st, asg = L.op(st, "=", nv, na)
        st, ne = L.const(st, e); st, b = L.body(st); st, nid = S.one("id_node", [S.text(st, "v")], st)
        ops = [asg, ne, b, nid]
        if withstep:
            st, ns = L.const(st, stp); ops.append(ns)
        st, n = L.op(st, "FOR", *ops)
        seen = 0
        for s, ev, how in L.run(st, n):
            bodies = [x for x in ev if x[0] == 'body']
            other = [x for x in ev if x[0] in ('ins', 'write', 'cond')]
            ctx.ob(key + "/only", not other, "something else is generated: %r" % (other[:1],), WHERE)
            err = any(x[0] == 'message' for x in ev)
            rs = s.rset(stp) if withstep else ((1, 1),)
            ctx.ob(key + "/ends", how != 'exit', "the assembler stops", WHERE)
            if how == 'exit': continue
            if inter(rs, ((0, 0),)):
                # a step of zero (the path may hold other steps only if the body is not entered)
                ctx.ob(key + "/zero step", err and not bodies and not inter(rs, NZ), "a step of 0 is %s" % ("accepted" if not err else "reported after the body"), WHERE); continue
            up = not inter(rs, ((-INF, -1),)); down = not inter(rs, ((1, INF),))
            bad = None
            val = a; wide = a; ended = None; k = 0
            for x in bodies:
                if ended: bad = "the body is expanded after %s" % ended; break
                k += 1
                ok = (up and subset(s.rset(sub(wide, e)), ((-INF, 0),))) or (down and subset(s.rset(sub(wide, e)), ((0, INF),)))
                if not ok: bad = "the body is expanded with a value beyond the end: value - end may be %r, step %r" % (s.rset(sub(wide, e)), rs); break
                if not same_bits(s, x[4], wide, 32): bad = "the variable is %r in the body instead of %r" % (x[4], wide); break
                if k > L.limit: break
                pc = s.tags[('pc', k)]; r = s.rset(pc)
                if not inter(r, ((-INF, 0xFFFF),)): ended = "the location counter has left the address space"
                elif inter(r, ((0x10000, INF),)): bad = "the location counter is not looked at after the body"; break
                wide = add(s.tags[('now', k)], stp)
            seen = max(seen, k)
            if not bad and how == 'done':
                if ended:
                    if not err: bad = "leaving the address space is not reported"
                elif err: bad = "an error is reported"
                else:
                    d = s.rset(sub(wide, e))
                    beyond = (up and subset(d, ((1, INF),))) or (down and subset(d, ((-INF, -1),)))
                    rw = s.rset(wide)
                    over = (up and subset(rw, ((MAX + 1, INF),))) or (down and subset(rw, ((-INF, MIN - 1),)))
                    if not beyond and not over: bad = "the loop ends although value - end may be %r (step %r)" % (d, rs)
            ctx.ob(key, bad is None, bad, bodies[-1][3] if bodies else WHERE)
        ctx.need(seen >= 2, "two expansions of the body of " + key)
        L.hook = L.after = None
        # another variable after next
        for same in (0, 1):
            st = L.begin()
            L.pcmax = 0xFFFF
            st, y = L.var(st, "v", 7); st, y2 = L.var(st, "w", 7)
            st, nv = S.one("id_node", [S.text(st, "v")], st); st, na = L.const(st, 1); st, asg = L.op(st, "=", nv, na)
            st, ne = L.const(st, 1); st, b = L.body(st); st, nid = S.one("id_node", [S.text(st, "v" if same else "w")], st)
            ops = [asg, ne, b, nid]
            if withstep:
                stp = fresh("step", 32); st.assume(stp, NZ)
                st, ns = L.const(st, stp); ops.append(ns)
            st, n = L.op(st, "FOR", *ops)
            for s, ev, how in L.run(st, n):
                err = any(x[0] == 'message' for x in ev); bodies = sum(1 for x in ev if x[0] == 'body')
                ctx.ob("FOR/variable after NEXT", (not err and bodies >= 1) if same else (err and not bodies),
                       "a loop closed by %s variable is %s" % ("its own" if same else "another", "reported" if err else "expanded"), WHERE)
    L.pcmax = 0xFFFF
