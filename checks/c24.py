"""C24: reaching definitions, dominators, captures, global facts and their invalidation (codon/cir/analyze/dataflow, analyze/module/global_vars.cpp, codon/cir/transform/manager.cpp)."""
import os, subprocess
import z3
import core, irw, llvc, c20
from core import Unsupported
from check import T
from c20 import bv, flag, key
PROP = 'C24'; LEVEL = 'proof'
TECHNIQUE = 'deductive verification on LLVM IR of the real C++: contract of every control-flow visitor over abstract children, contracts of the bit-set operations, generated/killed definitions and the capture analysis with symbolic callee contracts (callee by contract), discharged with z3; native path-by-path oracle on random programs, every small graph and every small pass schedule as bounded stand-in for the fixpoints and their composition'
NOTE = ('For every node kind, alone and inside a handler or loop: every transfer of control its execution can make between its children, its assignments and its surroundings is a path of the graph that passes no other assignment, for arbitrary child graphs. '
        'Bit sets compute union, difference, copy and equality for all contents. Every assignment kind generates and kills exactly its variable. A function is reported not to capture, return or modify an argument only if no callee contract lets it, for every contract of the callee. '
        'Bounded natively: every execution of random programs against every reported fact; all graphs of up to 3 blocks and 4 definitions; all analysis graphs of up to 4 analyses.')
ASSUMPTIONS = ['child graphs enter at their first and leave at their last block', 'loops and branches may go either way', 'bit sets of up to 3 words', 'attributes stated on external and LLVM functions are true', 'reference cycles between arguments on entry are outside the capture contract']
TRUSTED = ['clang 18 and LLVM inliner', 'dv/llparse.py, dv/llvc.py (IR semantics)', 'harness/rt.cpp (list/tree/hash primitives of libstdc++)', 'harness/irf.cpp (node construction)', 'harness/drv_prog.cpp, harness/drv_flow.cpp (native oracles)', 'z3']
TUS = irw.BASE + ['codon/cir/transform/parallel/schedule.cpp', 'codon/compiler/error.cpp', 'codon/util/common.cpp', 'codon/cir/util/side_effect.cpp', 'codon/cir/analyze/analysis.cpp', 'codon/cir/util/operator.cpp']
TUS = [t for t in TUS if os.path.exists(os.path.join(irw.llbuild.REPO, t))]
STATE = {}
def setup(tmp, tier):
    nat = irw.native_async([os.path.join(irw.HARN, 'irh.cpp'), os.path.join(irw.HARN, 'drv_flow.cpp')] + irw.PROG, tmp, os.path.join(irw.HARN, 'drv_prog.cpp'), fn=irw.native_plain)
    try:
        w = irw.World(irw.compile_all(TUS, tmp, harness='irf.cpp'))
        def boot(e): e.h('h_f_module'); STATE['ncap'] = e.h('h_c_build')
        w.boot(boot); STATE['w'] = w
    except Exception as e: STATE['err'] = 'the white-box harness does not fit the tree: ' + str(e)[:300]
    STATE['exe'] = nat()
    return STATE
def run(task, fn, what):
    if 'w' not in STATE: raise Unsupported(STATE['err'])
    def go(ctx): ctx.who = what; fn(ctx, STATE['w'].exec(ctx))
    core.explore(task, go)
# ---- control-flow graphs over abstract children ----
UNKNOWN, KNOWN, NEXT, ADD = range(4)
class G:
    """builds one node; req: list of chains of points. A point is ('i', mark) entry of a child, ('o', mark) its exit, ('n', node) a node, ('d', kind, var) a synthetic assignment"""
    def __init__(s, e): s.e = e; s.req = []; s.present = []; s.nm = {}; s.checks = []
    def m(s, n): p = s.e.h('h_mark'); s.nm[n] = p; return p
    def var(s): return s.e.h('h_var')
    def ser(s, *xs):
        f = s.e.h('h_series')
        for x in xs: s.e.h('h_push', f, x)
        return f
    def ins(s, k, *a): a = list(a) + [0] * (3 - len(a)); return s.e.h('h_instr', k, *a)
    def go(s, *pts): s.req.append(pts)
I_, O_ = (lambda m: ('i', m)), (lambda m: ('o', m))
def D(k, v): return ('d', k, v)
def N(n): return ('n', n)
def graph(ctx, ex, g, body, name, nargs=0):
    cf = ex.h('h_cfg', body, nargs); nb = ex.h('h_nb')
    vals = [[ex.h('h_val', i, j) for j in range(ex.h('h_nv', i))] for i in range(nb)]
    succ = [[j for j in range(nb) if ex.h('h_succ', i, j) & 1] for i in range(nb)]
    ctx.prove(all((j in succ[i]) == bool(ex.h('h_pred', i, j) & 1) for i in range(nb) for j in range(nb)), 'predecessors are the inverse of successors', name)
    tag = {}
    for p in g.nm.values(): tag[key(p)] = ('i', key(p)); tag[key(ex.h('h_out', p))] = ('o', key(p))
    lab, stop = {}, set()
    for i in range(nb):
        for j, v in enumerate(vals[i]):
            t = tag.get(key(v))
            if t is None:
                k = ex.h('h_sk', v); k = llvc.sgn(k, 32) if isinstance(k, int) else k
                t = ('d', k, key(ex.h('h_slhs', v))) if k >= 0 else ('n', key(v))
            lab.setdefault(t, []).append((i, j))
            if t[0] in 'id': stop.add((i, j))
    def pos(p): return lab.get(('d', p[1], key(p[2])) if p[0] == 'd' else (p[0], key(p[1])), [])
    def direct(a, b):
        seen = set(); todo = [(i, j + 1) for i, j in a]; b = set(b)
        while todo:
            i, j = todo.pop()
            if (i, j) in seen: continue
            seen.add((i, j))
            if j < len(vals[i]):
                if (i, j) in b: return True
                if (i, j) not in stop: todo.append((i, j + 1))
            else: todo += [(x, 0) for x in succ[i]]
        return False
    for chain in g.req:
        for a, b in zip(chain, chain[1:]):
            pa, pb = pos(a), pos(b)
            ctx.prove(bool(pa and pb) and direct(pa, pb), 'control that passes from %s to %s follows a path of the graph' % (desc(g, a), desc(g, b)), name)
    for n in g.present:
        l = ex.h('h_loc', cf, n); l = llvc.sgn(l, 32)
        ctx.prove(l >= 0 and len(pos(N(n))) <= 1, 'every value is located in a block, once', name)
        if l >= 0 and pos(N(n)): ctx.prove(pos(N(n))[0][0] == l, 'a value is located in the block that lists it', name)
    for fn in g.checks: fn(ctx, ex, cf, vals, pos)
    return cf, vals, pos, direct, ex.h('h_entry', cf)
def desc(g, p):
    for n, q in g.nm.items():
        if p[0] in 'io' and key(q) == key(p[1]): return ('the start of ' if p[0] == 'i' else 'the end of ') + n
    return {'n': 'the node', 'd': 'the assignment of the variable'}.get(p[0], str(p[0]))
def k_if(g, els):
    c, t = g.m('condition'), g.m('true branch'); f = g.m('false branch') if els else 0
    def reqs(pre, post):
        g.go(pre, I_(c)); g.go(O_(c), I_(t)); g.go(O_(t), post)
        if els: g.go(O_(c), I_(f), ); g.go(O_(f), post)
        else: g.go(O_(c), post)
    return g.e.h('h_if', c, g.ser(t), g.ser(f) if els else 0), reqs, []
def loopbody(g, how):
    """body of a loop: (series, first point, points that go to the next iteration, points that leave)"""
    b = g.m('body')
    if how == 'plain': return g.ser(b), I_(b), [O_(b)], []
    if how == 'break': x = g.e.h('h_break', 0); return g.ser(b, x), I_(b), [], [O_(b)]
    if how == 'continue': x = g.e.h('h_continue', 0); return g.ser(b, x), I_(b), [O_(b)], []
    if how == 'maybe break': c = g.m('test'); d = g.m('rest'); g.go(O_(b), I_(c)); g.go(O_(c), I_(d)); return g.ser(b, g.e.h('h_if', c, g.ser(g.e.h('h_break', 0)), 0), d), I_(b), [O_(d)], [O_(c)]
    if how == 'maybe continue': c = g.m('test'); d = g.m('rest'); g.go(O_(b), I_(c)); g.go(O_(c), I_(d)); return g.ser(b, g.e.h('h_if', c, g.ser(g.e.h('h_continue', 0)), 0), d), I_(b), [O_(d), O_(c)], []
    fin = g.m('finally'); jump = g.e.h('h_break' if 'break' in how else 'h_continue', 0)
    if how.endswith('in try'): t = g.e.h('h_try', g.ser(b, jump), g.ser(fin), 0); g.go(O_(b), I_(fin)); return g.ser(t), I_(b), [O_(fin)] if 'continue' in how else [], [O_(fin)] if 'break' in how else []
    if how.endswith('in handler'):
        h = g.m('handler'); t = g.e.h('h_try', g.ser(b, g.ins(4, g.m('raising'))), g.ser(fin), 0); g.e.h('h_catch', t, g.ser(h, jump), 0)
        g.go(O_(b), I_(g.nm['raising'])); g.go(O_(h), I_(fin)); return g.ser(t), I_(b), [O_(fin)], [O_(fin)] if 'break' in how else []
    if how.endswith('in else'):
        el = g.m('else'); t = g.e.h('h_try', g.ser(b), g.ser(fin), g.ser(el, jump)); g.go(O_(b), I_(el), ); g.go(O_(el), I_(fin)); return g.ser(t), I_(b), [O_(fin)] if 'continue' in how else [], [O_(fin)] if 'break' in how else []
    if how.endswith('in two tries'):
        f2 = g.m('outer finally'); t = g.e.h('h_try', g.ser(b, jump), g.ser(fin), 0); t2 = g.e.h('h_try', g.ser(t), g.ser(f2), 0)
        g.go(O_(b), I_(fin)); g.go(O_(fin), I_(f2)); return g.ser(t2), I_(b), [O_(f2)] if 'continue' in how else [], [O_(f2)] if 'break' in how else []
    if how.endswith('in try without finally'):
        g.nm.pop('finally'); t = g.e.h('h_try', g.ser(b, jump), 0, 0); h = g.m('handler'); g.e.h('h_catch', t, g.ser(h), 0); return g.ser(t), I_(b), [O_(h)] + ([O_(b)] if 'continue' in how else []), [O_(b)] if 'break' in how else []
LB = ['plain', 'break', 'continue', 'maybe break', 'maybe continue'] + [j + ' ' + w for j in ('break', 'continue') for w in ('in try', 'in handler', 'in else', 'in two tries', 'in try without finally')]
def k_while(g, how):
    c = g.m('condition'); s, first, nxt, out = loopbody(g, how)
    def reqs(pre, post):
        g.go(pre, I_(c)); g.go(O_(c), first); g.go(O_(c), post)
        for p in nxt: g.go(p, I_(c))
        for p in out: g.go(p, post)
    return g.e.h('h_while', c, s), reqs, []
def sched(g, pre, par, start):
    if not par: g.go(pre, start); return
    g.go(pre, I_(g.nm['threads'])); g.go(O_(g.nm['threads']), I_(g.nm['chunk'])); g.go(O_(g.nm['chunk']), start)
def k_for(g, how, par):
    it = g.m('iterator'); x = g.var(); u, w = (g.m('threads'), g.m('chunk')) if par else (0, 0); s, first, nxt, out = loopbody(g, how)
    def reqs(pre, post):
        sched(g, pre, par, I_(it)); g.go(O_(it), post); g.go(O_(it), D(NEXT, x)); g.go(D(NEXT, x), first)
        for p in nxt: g.go(p, D(NEXT, x)); g.go(p, post)
        for p in out: g.go(p, post)
    return g.e.h('h_for', it, s, x, u, w), reqs, []
def k_ifor(g, how, par):
    a, b = g.m('start'), g.m('end'); x = g.var(); u, w = (g.m('threads'), g.m('chunk')) if par else (0, 0); s, first, nxt, out = loopbody(g, how)
    def reqs(pre, post):
        sched(g, pre, par, I_(a)); g.go(O_(a), I_(b)); g.go(O_(b), post); g.go(O_(b), D(KNOWN, x)); g.go(D(KNOWN, x), first)
        g.go(D(ADD, x), first); g.go(D(ADD, x), post)
        for p in nxt: g.go(p, first); g.go(p, post)
        for p in out: g.go(p, post)
    def chk(ctx, ex, cf, vals, pos):
        for i, j in pos(D(KNOWN, x)): ctx.prove(key(ex.h('h_sarg', vals[i][j])) == key(a), 'the variable starts with the start value', 'counted loop')
        for i, j in pos(D(ADD, x)): ctx.prove(ex.h('h_sdiff', vals[i][j]) == (-3 & llvc.mask(64)), 'the variable advances by the step', 'counted loop')
    g.checks.append(chk)
    return g.e.h('h_ifor', a, -3 & llvc.mask(64), b, s, x, u, w), reqs, []
def k_try(g, ncatch, els, fin, outer):
    """body, handlers, else and finally each raise at a node of their own"""
    b, r = g.m('body'), g.ins(10); c = g.m('rest of body'); f = g.m('finally') if fin else 0; el = g.m('else') if els else 0; rf, rl = g.ins(13) if fin else 0, g.ins(8) if els else 0
    t = g.e.h('h_try', g.ser(b, r, c), g.ser(f, rf) if fin else 0, g.ser(el, rl) if els else 0); hs = []
    for i in range(ncatch):
        x = g.var() if i != 1 else 0; h = g.m('handler %d' % i); rh = g.ins(12); g.e.h('h_catch', t, g.ser(h, rh), x); hs.append((x, h, rh))
    def reqs(pre, post):
        g.go(pre, I_(b)); g.go(O_(b), N(r)); g.go(N(r), I_(c)); aft = I_(f) if fin else post
        g.go(O_(c), I_(el) if els else aft)
        if els: g.go(O_(el), N(rl)); g.go(N(rl), aft)
        for x, h, rh in hs:
            if x: g.go(N(r), D(UNKNOWN, x)); g.go(D(UNKNOWN, x), I_(h))
            else: g.go(N(r), I_(h))
            g.go(O_(h), N(rh)); g.go(N(rh), aft)
        if fin:
            g.go(N(r), I_(f)); g.go(O_(f), N(rf)); g.go(N(rf), post)
            if els: g.go(N(rl), I_(f))
            for x, h, rh in hs: g.go(N(rh), I_(f))
        if outer:   # an exception that is not caught reaches the outer handler
            last = [N(rf)] if fin else [N(r)] + [N(rh) for _, _, rh in hs] + ([N(rl)] if els else [])
            for p in last: g.go(p, outer)
    return t, reqs, [r]
def k_line(g, what):
    """nodes that evaluate children in order and then act"""
    e = g.e; a, b, c = g.m('first'), g.m('second'), g.m('third'); order = [a]; n = None
    if what == 'assign': x = g.var(); n = e.h('h_assign', x, a)
    elif what == 'extract': n = g.ins(0, a)
    elif what == 'insert': n = g.ins(1, a, b); order = [a, b]
    elif what.startswith('call'): k = int(what[4:]); n = g.ins(2, *[a, b, c][:k + 1]); order = [a, b, c][:k + 1]
    elif what == 'yield': n = g.ins(4, a)
    elif what == 'await': n = g.ins(5, a)
    elif what == 'throw': n = g.ins(6, a)
    elif what == 'flow': n = g.ins(7, g.ser(a), b); order = [a, b]
    elif what.startswith('leaf'): n = g.ins(int(what[4:])); order = []
    def reqs(pre, post):
        p = pre
        for m in order: g.go(p, I_(m)); p = O_(m)
        g.go(p, N(n))
        if what != 'throw': g.go(N(n), post)
    g.present.append(n)
    return n, reqs, [n]
def k_ternary(g):
    c, t, f = g.m('condition'), g.m('true value'), g.m('false value'); n = g.ins(3, c, t, f)
    def reqs(pre, post): g.go(pre, I_(c)); g.go(O_(c), I_(t)); g.go(O_(c), I_(f)); g.go(O_(t), post); g.go(O_(f), post)
    def chk(ctx, ex, cf, vals, pos): ctx.prove(llvc.sgn(ex.h('h_loc', cf, n), 32) >= 0, 'the result of a conditional expression is located in a block', 'conditional expression')
    g.checks.append(chk)
    return n, reqs, []
def k_return(g, val):
    a = g.m('value') if val else 0; n = g.e.h('h_return', a); g.present.append(n)
    def reqs(pre, post):
        if val: g.go(pre, I_(a)); g.go(O_(a), N(n))
        else: g.go(pre, N(n))
    return n, reqs, []
def k_retfin(g):
    a, f = g.m('value'), g.m('finally'); n = g.e.h('h_return', a); t = g.e.h('h_try', g.ser(n), g.ser(f), 0)
    def reqs(pre, post): g.go(pre, I_(a)); g.go(O_(a), I_(f))
    return t, reqs, []
def k_pipe(g, n, gen):
    a, b, c = g.m('first stage'), g.m('second stage'), g.m('third stage'); p = g.e.h('h_pipe', n, gen, a, b, c); st = [g.e.h('h_pipe_head', p), b, c][:n]; g.nm['first stage'] = st[0]
    for x, m in (('second stage', 2), ('third stage', 3)):
        if n < m: g.nm.pop(x)
    def reqs(pre, post):
        g.go(pre, I_(st[0])); loops = [i for i in range(n - 1) if gen >> i & 1]
        if not loops:
            for i in range(n): g.go(O_(st[i]), I_(st[i + 1]) if i + 1 < n else post)
        else:   # an outer generator may be exhausted at once; the last stage goes round
            g.go(O_(st[loops[0]]), post)
            for i in range(n - 1):
                if i not in loops: g.go(O_(st[i]), I_(st[i + 1]))
    def chk(ctx, ex, cf, vals, pos):
        if len([i for i in range(n - 1) if gen >> i & 1]) == 0: return
        nx = [(i, j) for i in range(len(vals)) for j, v in enumerate(vals[i]) if llvc.sgn(ex.h('h_sk', v), 32) == NEXT]
        ctx.prove(len(nx) == len([i for i in range(n - 1) if gen >> i & 1]), 'every generator stage assigns its element', 'pipeline')
    g.checks.append(chk)
    return p, reqs, []
CASES = [('if', k_if, (0,)), ('if else', k_if, (1,))] + [('while, ' + h, k_while, (h,)) for h in LB] + [('for, %s%s' % (h, ', parallel' if p else ''), k_for, (h, p)) for p in (0, 1) for h in (LB if not p else LB[:2])]
CASES += [('counted loop, %s%s' % (h, ', parallel' if p else ''), k_ifor, (h, p)) for p in (0, 1) for h in (LB if not p else LB[:2])]
CASES += [(w, k_line, (w,)) for w in ['assign', 'extract', 'insert', 'call0', 'call1', 'call2', 'yield', 'await', 'throw', 'flow'] + ['leaf%d' % i for i in (8, 9, 10, 11, 12, 13)]] + [('ternary', k_ternary, ()), ('return', k_return, (1,)), ('return nothing', k_return, (0,)), ('return through finally', k_retfin, ())]
CASES += [('pipeline %d %d' % (n, gn), k_pipe, (n, gn)) for n in (1, 2, 3) for gn in range(1 << (n - 1))]
TRYS = [('try %d%s%s' % (k, ' else' if e else '', ' finally' if f else ''), k_try, (k, e, f)) for k in range(3) for e in (0, 1) for f in (0, 1)]
def p_cfg(task, cases):
    for name, fn, args in cases:
        for where in ('plain', 'in a try', 'in a handler') if fn is not k_retfin else ('plain',):
            def go(ctx, ex, name=name, fn=fn, args=args, where=where):
                g = G(ex); pre, post = g.m('what precedes'), g.m('what follows'); cv = g.var(); h = None
                if where != 'plain': h = g.m('outer handler')
                a = args + ((D(UNKNOWN, cv) if where == 'in a try' else None,) if fn is k_try else ())
                n, reqs, raising = fn(g, *a)
                reqs(O_(pre), I_(post)); body = g.ser(pre, n, post)
                if where == 'in a try':
                    t = ex.h('h_try', body, 0, 0); ex.h('h_catch', t, g.ser(h), cv); body = g.ser(t); g.go(D(UNKNOWN, cv), I_(h))
                    if fn is not k_try:
                        for r in raising: g.go(N(r), D(UNKNOWN, cv))
                elif where == 'in a handler':
                    q = g.m('tried'); f = g.m('finally of the handler'); t = ex.h('h_try', g.ser(q, g.ins(10)), g.ser(f), 0); ex.h('h_catch', t, body, cv); body = g.ser(t); g.nm.pop('outer handler')
                    g.go(D(UNKNOWN, cv), I_(pre)); g.go(O_(post), I_(f))
                    if fn is not k_try:
                        for r in raising: g.go(N(r), I_(f))
                graph(ctx, ex, g, body, '%s, %s' % (name, where))
            run(task, go, 'CFVisitor: %s, %s' % (name, where))
def p_func(task):
    for na in range(4):
        def go(ctx, ex, na=na):
            g = G(ex); b = g.m('body'); cf, vals, pos, direct, ent = graph(ctx, ex, g, g.ser(b), 'function of %d arguments' % na, na); prev = None
            for i in range(na):
                d = D(UNKNOWN, ex.h('h_farg', cf, i)); ds = pos(d) or pos(D(KNOWN, d[2]))
                ctx.prove(len(ds) == 1 and ds[0][0] == ent, 'every argument is assigned in the entry block', 'function')
                if ds: ctx.prove(direct(ds, [p for j in range(i + 1, na) for p in pos(D(UNKNOWN, ex.h('h_farg', cf, j))) + pos(D(KNOWN, ex.h('h_farg', cf, j)))] or pos(I_(b))), 'the body follows the assignment of the arguments', 'function')
            ctx.prove(any(i == ent for i, j in pos(I_(b))) or direct([(ent, -1)], pos(I_(b))) or na > 0, 'the body starts at the entry', 'function')
        run(task, go, 'CFVisitor: function')
# ---- bit sets ----
def p_bits(task):
    M64 = (1 << 64) - 1
    for n in (1, 64, 65, 128, 150, 192):
        nw = (n + 63) // 64
        for op in range(9):
            for w in range(nw) if op in (6, 7) else (0,):
                def go(ctx, ex, n=n, op=op, w=w):
                    a, b = ex.h('h_bs', n), ex.h('h_bs', n); A = [ctx.fresh_bv('a%d' % i, 64) for i in range(nw)]; B = [ctx.fresh_bv('b%d' % i, 64) for i in range(nw)]
                    for i in range(nw): ctx.input('a%d' % i, A[i]); ctx.input('b%d' % i, B[i]); ex.h('h_bs_put', a, i, A[i]); ex.h('h_bs_put', b, i, B[i])
                    what = 'bit set of %d' % n; k = n
                    if op in (6, 7): k = ctx.fresh_bv('bit', 32); ctx.input('bit', k); ctx.assume(z3.And(z3.UGE(k, 64 * w), z3.ULT(k, min(64 * w + 64, n))))
                    one = z3.BitVecVal(1, 64) << z3.ZeroExt(32, z3.URem(k, z3.BitVecVal(64, 32))) if op in (6, 7) else None
                    r = ex.h('h_bs_op', op, a, b, k)
                    R = [bv(ex.h('h_bs_word', a, i), 64) for i in range(nw)]
                    exp = {0: lambda i: A[i] | B[i], 1: lambda i: A[i] & ~B[i], 2: lambda i: B[i], 3: lambda i: z3.BitVecVal(0, 64), 4: lambda i: B[i], 5: lambda i: A[i], 6: lambda i: A[i] | one if i == w else A[i], 7: lambda i: A[i], 8: lambda i: z3.BitVecVal(M64, 64)}[op]
                    nm = ['union', 'difference', 'overwriting', 'clearing', 'copying', 'comparing', 'setting a bit', 'reading a bit', 'filling'][op]
                    for i in range(nw): ctx.prove(R[i] == exp(i), '%s computes its result in every word' % nm, what)
                    for i in range(nw): ctx.prove(bv(ex.h('h_bs_word', b, i), 64) == B[i], '%s leaves its operand alone' % nm, what)
                    if op == 5: ctx.prove((bv(r, 1) == 1) == z3.And([A[i] == B[i] for i in range(nw)]), 'sets are equal iff their words are', what)
                    if op == 7: ctx.prove((bv(r, 1) == 1) == ((A[w] & one) != 0), 'a member is a set bit', what)
                run(task, go, 'BitSet')
        def new(ctx, ex, n=n):
            b = ex.h('h_bs', n); ctx.prove(ex.h('h_bs_words', b) == nw, 'a set has a word for each 64 members', 'BitSet')
            for i in range(nw): ctx.prove(bv(ex.h('h_bs_word', b, i), 64) == 0, 'a new set is empty', 'BitSet')
        run(task, new, 'BitSet')
def p_defs(task):
    for k in range(10):
        def go(ctx, ex, k=k):
            d = ctx.fresh_bv('diff', 64); ex.h('h_def', k, d); isdef = k < 5; b = lambda n: ex.h(n) & 1; what = ['assignment', 'unknown synthetic', 'known synthetic', 'next value', 'addition', 'variable', 'pointer', 'call', 'insert', 'phi'][k]
            if isdef:
                ctx.prove(b('h_kills') == 1, 'an assignment kills the definitions of its variable', what); ctx.prove(b('h_gens') == 1 and b('h_genok') == 1, 'an assignment defines its variable', what)
                ctx.prove(b('h_genknown') == (1 if k in (0, 2) else 0), 'the value is known only for plain assignments', what)
                if k in (0, 2): ctx.prove(b('h_genval') == 1, 'the value assigned is the right-hand side', what)
            else: ctx.prove(b('h_killsany') == 0 and b('h_gensany') == 0, 'nothing else defines a variable', what)
        run(task, go, 'getGenerated/getKilled')
# ---- captures ----
RET, EXT, MOD = range(3)
def p_cap(task, k, full=True):
    def go(ctx, ex):
        ex.h('h_c_new'); c = []; names = ['return-captured', 'captured externally', 'modified']
        used1 = k in (13, 16)
        for i in range(2):
            fl = [flag(ctx, 'the callee says parameter %d is %s' % (i, n)) for n in names]; c.append([f == 1 for f in fl]); ex.h('h_c_set', 0, i, *fl)
        if used1: fl = [flag(ctx, 'the second callee says its parameter is ' + n) for n in names]; d = [f == 1 for f in fl]; ex.h('h_c_set', 1, 0, *fl)
        a01, a10 = z3.Bool('argument 0 captured by 1'), z3.Bool('argument 1 captured by 0')
        if not full: ctx.assume(z3.AtMost(*(c[0] + c[1] + (d if used1 else [])), 2 if used1 else 1)); ctx.assume(z3.AtMost(*(c[1] + [a01]), 1)); ctx.assume(z3.AtMost(*(c[0] + [a10]), 1)); ctx.assume(z3.Not(z3.And(a01, a10)))
        a01, a10 = ctx.branch(a01), ctx.branch(a10)
        if a01: ex.h('h_c_arg', 0, 0, 1)
        if a10: ex.h('h_c_arg', 0, 1, 0)
        ex.h('h_c_run', k)
        R = [[bv(ex.h('h_c_get', i, w), 1) == 1 for w in range(3)] for i in range(3)]; AC = [[ex.h('h_c_argcap', i, j) & 1 for j in range(3)] for i in range(3)]
        t = z3.BoolVal; what = 'capture case %d' % k; nm = ['returned', 'captured externally', 'modified']
        def need(i, w, cond): ctx.prove(z3.Implies(cond, z3.Or(R[i][w], R[i][EXT]) if w == RET else R[i][w]), 'an argument that may be %s is reported so' % nm[w], what)
        def needa(i, j, cond): ctx.prove(z3.Implies(cond, z3.Or(t(bool(AC[i][j])), R[i][EXT])), 'an argument that may be stored in another is reported so', what)
        P, Q = 0, 1; (pr, pe, pm), (qr, qe, qm) = c
        if k == 16: need(P, RET, d[RET]); need(P, EXT, d[EXT]); need(P, MOD, d[MOD]); return
        if k == 19:
            for i in (P, Q): need(i, RET, t(True)); need(i, EXT, t(True)); need(i, MOD, t(True))
            return
        # through the callee itself
        need(P, EXT, pe); need(Q, EXT, qe); need(P, MOD, pm); need(Q, MOD, qm)
        if k not in (11, 21): needa(P, Q, t(a01)); needa(Q, P, t(a10))
        if k in (0, 6, 7, 8, 9, 10, 15, 21): need(P, RET, pr); need(Q, RET, qr)
        if k in (5, 20): need(P, RET, pr); need(Q, RET, qr)
        if k == 4: need(P, EXT, pr); need(Q, EXT, qr)
        if k in (1, 11, 12): need(P, RET, t(a01)); need(Q, RET, t(True))
        if k == 2: need(Q, EXT, t(True)); need(P, EXT, t(a01))
        if k in (3, 18): need(P, MOD, pr); need(Q, MOD, qr); needa(2, P, pr); needa(2, Q, qr)
        if k == 13: need(P, RET, z3.And(pr, d[RET])); need(Q, RET, z3.And(qr, d[RET])); need(P, EXT, z3.And(pr, d[EXT])); need(P, MOD, z3.And(pr, d[MOD]))
        if k == 14: need(P, EXT, pr); need(Q, EXT, qr)
    run(task, go, 'CaptureTracker case %d' % k)
def p_ext(task):
    for kind in range(4):
        for a in range(-1, 6) if kind < 2 else (-1,):
            def go(ctx, ex, kind=kind, a=a):
                ex.h('h_c_new'); ex.h('h_c_ext', kind, a); n = ex.h('h_c_n'); what = 'function without body, kind %d attribute %d' % (kind, a); t = 0, 2
                ctx.prove(n == 3, 'every parameter has a capture fact', what)
                g = lambda i, w: ex.h('h_c_get', i, w) & 1
                for i in t:
                    if kind < 2 and a == -1:
                        ctx.prove(bool(g(i, RET) and g(i, EXT) and g(i, MOD)), 'nothing is assumed about an unknown function', what); ctx.prove(bool(ex.h('h_c_argcap', i, 2 - i) & 1), 'nothing is assumed about an unknown function', what)
                    if kind < 2 and a in (3, 5) or kind == 3: ctx.prove(bool(g(i, RET)), 'a result derived from the arguments captures them', what)
                    if kind < 2 and a in (4, 5): ctx.prove(bool((i == 0 and g(0, MOD)) or (i == 2 and ex.h('h_c_argcap', 2, 0) & 1)), 'the first argument of a capturing method holds the others', what)
            run(task, go, 'CaptureContext::get')
def p_rest(task): p_func(task); p_bits(task); p_defs(task); p_ext(task)
def tasks(tier):
    if 'w' not in STATE: return [T('contracts', p_rest, (), unit='contracts')]
    out = []
    for cs, n in ((CASES, 5), (TRYS, 2)):
        for j in range(0, len(cs), n): g = cs[j:j + n]; out.append(T('graph of %s .. %s' % (g[0][0], g[-1][0]), p_cfg, (g,), unit='CFVisitor'))
    return out + [T('captures %d' % k, p_cap, (k, tier != 'quick'), unit='CaptureTracker') for k in range(STATE['ncap'])] + [T('function entry', p_func, (), unit='BodiedFunc'), T('bit sets', p_bits, (), unit='BitSet'), T('definitions', p_defs, (), unit='getGenerated'), T('functions without body', p_ext, (), unit='CaptureContext::get')]
# ---- native oracles ----
SCEN = ('capture-', 'assignment-after-', 'while-', 'break-through-', 'continue-through-', 'return-through-', 'raise-through-', 'range-', 'empty-range-', 'loop-over-')
def f_scen24(rep): c20.f_scen(rep, STATE['exe'], SCEN)
def f_facts(rep, part, n): c20.drive(rep, STATE['exe'], '!', 50000 * part + 7, n)
def f_prog(rep, p, part, n): c20.drive(rep, STATE['exe'], p, 70000 * part + 3, n)
def f_flow(rep, what, seed, n):
    out = os.path.join(os.environ.get('VERIF_TMP', '/tmp'), 'flow_%s_%d' % (what, seed))
    subprocess.run([STATE['exe'], what] + ([] if what == 'standard' else [str(seed), str(n)]) + [out], timeout=580, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ls = open(out).read().splitlines(); os.unlink(out)
    for l in ls:
        if l.startswith('bad '): rep.fail('flow:%s:%s' % (what, l[4:60]), {'graphs': 'control-flow graph', 'schedules': 'pass schedule', 'standard': 'standard passes'}[what] + ' (harness/drv_flow.cpp %s %d %d): %s' % (what, seed, n, l[4:]))
    if not ls or not ls[-1].startswith('done '): rep.fail('flow:%s:crash' % what, 'harness/drv_flow.cpp %s %d %d did not finish (crash or endless loop in the analysis)' % (what, seed, n)); return
    rep.n += int(ls[-1].split()[1])
def finders(tier):
    if 'exe' not in STATE: return []
    m = 1 if tier == 'quick' else 20
    fl = [('graphs', 0, 0), ('graphs', 5, 4000 * m), ('graphs', 6, 4000 * m), ('schedules', 0, 0), ('schedules', 3, 20000 * m), ('standard', 0, 0)]
    return [T('%s %d' % (a, b), f_flow, (a, b, c), timeout=600) for a, b, c in fl] + [T('directed programs', f_scen24, (), timeout=300)] + [T('facts/%d' % i, f_facts, (i, 350 * m), timeout=600 if tier == 'quick' else 3000) for i in range(4)] + [T('p/%d' % i, f_prog, ('p', i, 500 * m), timeout=600 if tier == 'quick' else 3000) for i in range(1)]
