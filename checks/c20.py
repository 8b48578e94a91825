"""C20: dead-code removal, global demotion and the side-effect analysis behind them (codon/cir/analyze/module/side_effect.cpp, codon/cir/transform/cleanup/{dead_code,global_demote}.cpp)."""
import os
import z3
import core, irw, llvc
from core import Unsupported
from check import T
PROP = 'C20'; LEVEL = 'proof'
TECHNIQUE = 'deductive verification: contract of every visit/handle of the side-effect analyser, the dead-code pass and global demotion on LLVM IR of the real C++, callee statuses symbolic (callee by contract), discharged with z3; native whole-program differential runs as bounded stand-in for the composition'
NOTE = ('For every node kind and every combination of operand statuses, callee statuses, use counts and variable flags: a node is reported free of effects only if its operands and callees are and it performs none itself, and a function only if nothing in it '
        'has an effect visible outside; functions being analysed count as effectful; dead-code removal erases exactly entries reported free of effects, in order, and replaces a statement with a constant condition or an empty constant range (all 64-bit bounds and steps) by the branch that runs; '
        'a demoted global is used by exactly one function and is neither external, thread-local nor argv. Random whole programs run natively before and after the passes (bounded).')
ASSUMPTIONS = ['the number of children of lists (series, arguments, handlers, stages) is that of harness/irs.cpp (0..4)', 'escapes() and the capture results are arbitrary in the proof of InsertInstr (property C24 covers them)',
               'attributes stated on external and LLVM functions are true', 'loops without effects terminate', 'a pass reads the side-effect result computed for the current module']
TRUSTED = ['clang 18 and LLVM inliner', 'dv/llparse.py, dv/llvc.py (IR semantics)', 'harness/rt.cpp (list/tree/hash primitives of libstdc++)', 'harness/irs.cpp (node construction)', 'harness/drv_prog.cpp (IR interpreter, native runs)', 'z3']
TUS = irw.BASE + ['codon/cir/transform/parallel/schedule.cpp', 'codon/compiler/error.cpp', 'codon/parser/common.cpp', 'codon/util/common.cpp', 'codon/cir/transform/pass.cpp', 'codon/cir/util/side_effect.cpp']
STATE = {}
def setup(tmp, tier):
    nat = irw.native_async([os.path.join(irw.HARN, 'irh.cpp')] + irw.PROG, tmp, os.path.join(irw.HARN, 'drv_prog.cpp'), fn=irw.native_plain)
    err = None
    try:
        lls = irw.compile_all(TUS, tmp, harness='irs.cpp')
        w = STATE['w'] = irw.World(lls)
        def boot(e):
            e.h('h_s_module'); e.h('h_g_build'); e.h('h_d_new'); out = []
            for i in range(e.h('h_s_count')):
                c = e.h('h_s_case', i); p = e.h('h_s_name', c); nm = ''
                while True:
                    b = e.load_raw(e.padd(p, len(nm)), 1)
                    if not b: break
                    nm += chr(b)
                out.append((nm, c, e.h('h_s_nkids', c), e.h('h_s_ncallees', c), e.h('h_s_own', c), e.h('h_s_fown', c), e.h('h_s_var', c), e.h('h_s_isfunc', c)))
            return out
        STATE['cases'] = w.boot(boot)
    except Exception as e: err = e
    STATE['exe'] = nat()
    if err: raise err
    return STATE
def run(task, fn, what):
    w = STATE['w']
    def go(ctx):
        ctx.who = what
        hk = irw.base_hooks()
        def esc(ex, a, n):   # contract of escapes(): any answer
            ex.h('h_s_capset', a[0], *[b32(x) for x in ctx.esc]); return None
        hk.on(r'codon::ir::analyze::dataflow::escapes', esc)
        ex = w.exec(ctx, hk); fn(ctx, ex)
    core.explore(task, go)
def b32(x): return x if isinstance(x, int) else z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if z3.is_bool(x) else x
def bv(x, w=32): return x if not isinstance(x, int) else z3.BitVecVal(x, w)
def status(ctx, n):
    v = ctx.fresh_bv(n, 32); ctx.input(n, v); ctx.assume(z3.And(v >= 0, v <= 3)); return v
def flag(ctx, n):
    v = ctx.fresh_bv(n, 1); ctx.input(n, v); return v
def p_visit(task, i, gse):
    nm, c, nk, nc, own, fown, var, isf = STATE['cases'][i]
    def go(ctx, ex):
        fs0 = status(ctx, 'status of the function so far'); ex.h('h_s_begin', gse, fs0)
        ks = [status(ctx, 'status of operand %d' % j) for j in range(nk)]; cs = [status(ctx, 'status of callee %d' % j) for j in range(nc)]
        for j, v in enumerate(ks): ex.h('h_s_set', ex.h('h_s_kid', c, j), v)
        for j, v in enumerate(cs): ex.h('h_s_set', ex.h('h_s_callee', c, j), v)
        vr, vf = [], []
        if isinstance(var, llvc.Ptr):
            g, e = flag(ctx, 'variable is global'), flag(ctx, 'variable is external'); u = ctx.fresh_bv('uses', 64); a = ctx.fresh_bv('assignments', 64); ctx.input('uses', u); ctx.input('assignments', a)
            ctx.assume(z3.And(a >= 0, u >= a))
            ex.h('h_s_flags', var, g, e); ex.h('h_s_countsym', var, u, a)
            used, gl, ext = u != a, g == 1, e == 1
            vr = [used, z3.And(gl, z3.Or(ext, z3.BoolVal(bool(gse))))]
            vf = [z3.And(gl, z3.Or(used, ext, z3.BoolVal(bool(gse))))]
        ex.h('h_s_visit', ex.h('h_s_node', c))
        r, fs = bv(ex.h('h_s_status', ex.h('h_s_node', c))), bv(ex.h('h_s_fs'))
        ctx.prove(z3.And(r >= 0, r <= 3), 'a status is recorded', nm)
        if isf:
            ctx.prove(z3.Implies(z3.Or([v != 0 for v in cs]), r != 0), 'a function is free of effects only if its callees are', nm)
            ctx.prove(z3.Implies(fs0 != 0, fs != 0), 'analysing a callee keeps the effects seen so far', nm)
        else:
            ctx.prove(z3.Implies(z3.Or([v != 0 for v in ks + cs] + vr + [z3.BoolVal(own > 0)]), r != 0), 'no effect of an operand, callee or assigned variable is lost', nm)
            ctx.prove(z3.Implies(z3.Or([v != 0 for v in cs] + vf + [fs0 != 0, z3.BoolVal(fown > 0)]), fs != 0), 'the enclosing function has the effects visible outside', nm)
        for j, v in enumerate(ks): ctx.prove(bv(ex.h('h_s_status', ex.h('h_s_kid', c, j))) == v, 'recorded statuses are kept', nm)
    run(task, go, nm)
def p_insert(task, gse):
    for n in range(3):
        for extra in range(2):
            def go(ctx, ex, n=n, extra=extra):
                fs0 = status(ctx, 'status of the function so far'); ex.h('h_s_begin', gse, fs0)
                nd = ex.h('h_s_insert', n); bad = []
                for i in range(n):
                    fl = [flag(ctx, '%s of parameter %d' % (w, i)) for w in ('return capture', 'extern capture', 'modified')]; arg = 1 if extra and i == n - 1 else 0
                    ex.h('h_s_capture', i, arg, *fl); bad += [fl[1] == 1, fl[2] == 1] + ([z3.BoolVal(True)] if arg else [])
                e = [flag(ctx, 'escape ' + w) for w in ('return', 'extern', 'modified')]; ctx.esc = [extra if n == 0 else 0] + e
                bad += [e[1] == 1] + ([z3.BoolVal(True)] if ctx.esc[0] else [])
                ex.h('h_s_visit', nd)
                r, fs = bv(ex.h('h_s_status', nd)), bv(ex.h('h_s_fs'))
                ctx.prove(r != 0, 'a member assignment always counts as an effect', 'InsertInstr')
                ctx.prove(z3.Implies(z3.Or(bad + [fs0 != 0]), fs != 0), 'a member assignment that reaches a parameter or escapes is an effect of the function', 'InsertInstr')
            run(task, go, 'InsertInstr')
def p_funcs(task):
    for kind in range(4):
        for attr in range(-1, 4):
            def go(ctx, ex, kind=kind, attr=attr):
                fs0 = status(ctx, 'status of the function so far'); leaf = status(ctx, 'status of the callee'); ex.h('h_s_begin', 1, fs0)
                f = ex.h('h_s_func', kind, attr, leaf); ex.h('h_s_visit', f); r = bv(ex.h('h_s_status', f))
                ctx.prove(z3.And(r >= 0, r <= 3), 'a status is recorded', 'function kind %d attribute %d' % (kind, attr))
                if kind == 3: return
                if attr in (2, 3) or (kind != 0 and attr < 0): ctx.prove(r != 0, 'a function not declared pure is not free of effects', 'function kind %d attribute %d' % (kind, attr))
                if kind == 0 and attr < 0: ctx.prove(z3.Implies(leaf != 0, r != 0), 'a function has the effects of its callees', 'function')
                ctx.prove(z3.Implies(fs0 != 0, bv(ex.h('h_s_fs')) != 0), 'analysing a function keeps the effects seen so far', 'function')
            run(task, go, 'function')
    for which in range(2):
        def go(ctx, ex, which=which):
            leaf = status(ctx, 'status of the leaf'); ex.h('h_s_begin', 1, 0)
            f = ex.h('h_s_mutual', which, leaf)
            ctx.prove(z3.Implies(leaf != 0, bv(ex.h('h_s_status', f)) != 0), 'mutually recursive functions share their effects', 'mutual %d' % which)
        run(task, go, 'mutual recursion')
    def has(ctx, ex):
        st = status(ctx, 'status')
        ctx.prove(bv(ex.h('h_s_has', 1, st), 1) == z3.If(st != 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 'hasSideEffect follows the status', 'hasSideEffect')
        ctx.prove(bv(ex.h('h_s_has', 0, st), 1) == 1, 'an unknown node has effects', 'hasSideEffect')
    run(task, has, 'hasSideEffect')
    for reads in range(3):
        for asg in range(3):
            for how in range(8):
                def go(ctx, ex, reads=reads, asg=asg, how=how):
                    ex.h('h_s_begin', 1, 0); v = ex.h('h_s_uses', reads, asg, how)
                    u, a = ex.h('h_s_usecount', v), ex.h('h_s_asgcount', v)
                    if reads: ctx.prove(u != a, 'a variable that is read is counted as used', 'reads %d assigns %d how %d' % (reads, asg, how))
                    ctx.prove(a >= asg and u >= a, 'uses include assignments', 'reads %d assigns %d how %d' % (reads, asg, how))
                run(task, go, 'VarUseAnalyzer')
def key(p): return (p.obj, p.off) if isinstance(p, llvc.Ptr) else p
def p_series(task, n):
    def go(ctx, ex):
        s = ex.h('h_d_series', n); vs = [ex.h('h_d_nth', s, i) for i in range(n)]; pres = [ctx.choose(2, 'status present') for i in range(n)]
        ex.h('h_seresult', s, 0); sts = []
        for i in range(n):
            st = status(ctx, 'status of entry %d' % i); sts.append(st)
            if pres[i]: ex.h('h_seadd', vs[i], st)
        ex.h('h_d_hseries', s)
        m = ex.h('h_d_len', s); left = [key(ex.h('h_d_nth', s, i)) for i in range(m)]
        pos = [left.index(key(v)) if key(v) in left else -1 for v in vs]
        for i in range(n):
            if pos[i] < 0: ctx.prove(sts[i] == 0 if pres[i] else z3.BoolVal(False), 'only entries free of effects are erased', 'SeriesFlow of %d' % n)
        ctx.prove([p for p in pos if p >= 0] == list(range(m)), 'the remaining entries keep their order', 'SeriesFlow of %d' % n)
    run(task, go, 'DeadCodeCleanupPass::handle(SeriesFlow)')
def p_branches(task):
    def res(ex, n): return bv(ex.h('h_d_result', n), 64)
    def bit(ctx): b = flag(ctx, 'condition'); return b
    for he in range(2):
        def f(ctx, ex, he=he):
            b = bit(ctx); r = res(ex, ex.h('h_d_if', b, he))
            ctx.prove(z3.Or(r == -1, r == z3.If(b == 1, z3.BitVecVal(111, 64), z3.BitVecVal(222 if he else 0, 64))), 'the branch that runs replaces the statement', 'if with constant condition')
        run(task, f, 'DeadCodeCleanupPass::handle(IfFlow)')
    def f(ctx, ex):
        b = bit(ctx); r = res(ex, ex.h('h_d_while', b)); ctx.prove(z3.Or(r == -1, z3.And(r == 0, b == 0)), 'only a loop that never runs is removed', 'while with constant condition')
    run(task, f, 'DeadCodeCleanupPass::handle(WhileFlow)')
    def f(ctx, ex):
        b = bit(ctx); r = res(ex, ex.h('h_d_ternary', b)); ctx.prove(z3.Or(r == -1, r == z3.If(b == 1, z3.BitVecVal(111, 64), z3.BitVecVal(222, 64))), 'the operand that is chosen replaces the expression', 'conditional expression')
    run(task, f, 'DeadCodeCleanupPass::handle(TernaryInstr)')
    def f(ctx, ex):
        a, s, e = [ctx.fresh_bv(n, 64) for n in ('start', 'step', 'end')]
        for n, v in (('start', a), ('step', s), ('end', e)): ctx.input(n, v)
        ctx.assume(s != 0)
        r = res(ex, ex.h('h_d_for', a, s, e)); ctx.prove(z3.Or(r == -1, z3.And(r == 0, z3.Or(z3.And(s > 0, a >= e), z3.And(s < 0, a <= e)))), 'only a counted loop over an empty range is removed', 'counted loop')
    run(task, f, 'DeadCodeCleanupPass::handle(ImperativeForFlow)')
    for k in range(5):
        def f(ctx, ex, k=k): ctx.prove(res(ex, ex.h('h_d_ifvar', k)) == -1, 'a statement whose condition or bounds are not constants is kept', 'kind %d' % k)
        run(task, f, 'DeadCodeCleanupPass')
def p_demote(task):
    def go(ctx, ex):
        n = ex.h('h_g_n'); vs = [ex.h('h_g_var', i) for i in range(n)]; fl = []
        for i, v in enumerate(vs[:-1]):
            e, t = (0, 0) if i not in task.sym else (flag(ctx, 'external %d' % i), flag(ctx, 'thread-local %d' % i)); fl.append((e, t)); ex.h('h_g_flags', v, e, t)
        ex.h('h_g_run')
        for i, v in enumerate(vs):
            g, own = ex.h('h_g_global', v) & 1, ex.h('h_g_owner', v)
            what = 'global used by functions %s' % bin(i & 7 | (1 if i & 8 else 0))
            if i == n - 1: ctx.prove(g == 1, 'argv stays global', 'argv'); continue
            pat = i & 7 | (1 if i & 8 else 0); users = [j for j in range(3) if pat >> j & 1]
            if not g:
                ctx.prove(len(users) == 1, 'only a global used by one function becomes local', what)
                ctx.prove(z3.And(bv(fl[i][0], 1) == 0, bv(fl[i][1], 1) == 0), 'an external or thread-local variable stays global', what)
                ctx.prove(len(users) == 1 and own == 1 << (4 * users[0]), 'it becomes a local of the function that uses it, once', what)
            else: ctx.prove(own == 0, 'a variable that stays global is no local', what)
    for sym in ([1], [2], [4], [8], [3, 9], [0]):
        task.sym = sym; run(task, go, 'GlobalDemotionPass::run')
def tasks(tier):
    ts = []
    for i, c in enumerate(STATE['cases']):
        for g in (0, 1) if isinstance(c[6], llvc.Ptr) else (1,): ts.append(T('visit[%s%s]' % (c[0], '' if g else ', globals may be dropped'), p_visit, (i, g), unit=c[0]))
    out = []
    for j in range(0, len(ts), 8): g = ts[j:j + 8]; out.append(T('%s..%s' % (g[0].name, g[-1].name), p_group, (g,), unit='group'))
    out += [T('visit[InsertInstr] %d' % g, p_insert, (g,), unit='InsertInstr') for g in (0, 1)] + [T('functions', p_funcs, (), unit='functions')]
    out += [T('dce series %d' % n, p_series, (n,), unit='SeriesFlow') for n in range(5)] + [T('dce branches', p_branches, (), unit='branches'), T('global demotion', p_demote, (), unit='demote')]
    return out
def p_group(task, g):
    err = None
    for t in g:
        try: t.fn(task, *t.args)
        except Unsupported as e: err = Unsupported('%s: %s' % (t.name, e))
    if err: raise err
WHAT = {'h': 'dead-code removal', 'c': 'dead-code removal (global assignments may be dropped)', 'g': 'global demotion', 'F': 'the folding group', 'G': 'the folding group with demotion', 'C': 'cloning', 'D': 'cloning of functions', 'I': 'inlining', 'p': 'constant propagation', 'k': 'canonicalization', 'f': 'constant folding'}
def drive(rep, exe, passes, seed, n, env=None):
    out = os.path.join(os.environ.get('VERIF_TMP', '/tmp'), 'prog_%s_%d' % (passes, seed))
    import subprocess
    subprocess.run([exe, passes, str(seed), str(n), out], timeout=600, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    k = 0
    for l in open(out):
        sd, r = l.rstrip('\n').split(' ', 1); k += 1
        if r.startswith('DIFF') or r.startswith('pass threw') or (r.startswith('CRASH') and r != 'CRASH signal 14'):
            rep.fail('prog:%s:%s' % (passes, sd), 'random IR program %s, passes %s (%s): %s' % (sd, passes, ', '.join(WHAT.get(c, c) for c in passes), r))
        elif r == 'ok': rep.n += 1
    os.unlink(out)
    if k < n: raise RuntimeError('native driver did not finish')
def f_prog(rep, passes, part, n): drive(rep, STATE['exe'], passes, 100000 * part + 1, n)
SCEN = ('insert-', 'global-', 'break-in', 'effect-in-')
def f_scen(rep, exe, pre):
    import subprocess
    out = os.path.join(os.environ.get('VERIF_TMP', '/tmp'), 'scen_%s' % pre[0])
    subprocess.run([exe, 'scen', out], timeout=300, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    k = 0
    for l in open(out):
        nm, r = l.rstrip('\n').split(' ', 1); k += 1
        if not nm.startswith(pre): continue
        if r == 'ok': rep.n += 1
        else: rep.fail('scen:' + nm, 'directed IR program %s (harness/drv_prog.cpp): %s' % (nm, r))
    if k < 10: raise RuntimeError('native driver did not finish')
def f_scen20(rep): f_scen(rep, STATE['exe'], SCEN)
def finders(tier):
    if 'exe' not in STATE: return []
    m = 1 if tier == 'quick' else 20
    return [T('directed programs', f_scen20, (), timeout=300)] + [T('%s/%d' % (p, i), f_prog, (p, i, n * m), timeout=600 if tier == 'quick' else 3000) for p, n, k in (('h', 1000, 2), ('c', 1000, 3), ('g', 1500, 1), ('gc', 600, 2), ('IG', 45, 3)) for i in range(k)]
