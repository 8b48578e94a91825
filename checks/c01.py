"""C01: constant folding never changes what a program computes (codon/cir/transform/folding)."""
import os, re, subprocess, itertools, math
import z3
import core, llbuild, llvc, irw, irexpr, irfind, numspec as ns
from core import PathEnd, Unsupported
from llvc import Ptr, F, bv
from check import T
PROP = 'C01'; LEVEL = 'proof'
TECHNIQUE = 'deductive verification: postcondition of FoldingPass::handle on LLVM IR of the real C++ (rules, IR classes and helpers inlined), loop invariant for int_pow, SMT'
NOTE = ('For every scalar operator, both numerics modes and every literal/variable/opaque-call operand shape, the value left by FoldingPass::handle is proved equal to the run-time specification for all literal values, '
        'with effects and exceptions preserved and no trap inside the folder. The complete pass is also run natively on generated expression trees (bounded).')
ASSUMPTIONS = ['operand shapes: literal, variable, opaque call, and one level of nesting of the same operator (the rules inspect no deeper)',
               'signed overflow in the folder wraps and over-wide shifts do not trap (x86-64); their results are compared with the wrapped specification, over-wide shifts being undefined at run time',
               'pow() on floats is the same uninterpreted function at compile time and run time; NaN payloads are not distinguished',
               'the run-time operators have the values given in dv/numspec.py (property C09 checks them)',
               'type-checker entry point Module::getOrRealizeMethod is replaced by the table of built-in operators']
TRUSTED = ['clang 18', 'dv/llparse.py, dv/llvc.py (IR semantics)', 'harness/rt.cpp (list/tree/hash primitives of libstdc++)', 'z3', 'cvc5']
TUS = irw.BASE + ['codon/cir/transform/folding/const_fold.cpp', 'codon/cir/transform/pass.cpp', 'codon/compiler/error.cpp', 'codon/parser/common.cpp', 'codon/cir/transform/cleanup/canonical.cpp',
                  'codon/cir/util/matching.cpp', 'codon/cir/util/side_effect.cpp', 'codon/util/common.cpp']
STATE = {}

def setup(tmp, tier):
    lls = irw.compile_all(TUS, tmp); STATE['lls'] = lls; STATE['tmp'] = tmp
    nat = irw.native_async(lls, tmp, os.path.join(irw.HARN, 'drv_ir.cpp'))
    w = STATE['w'] = irw.World(lls)
    STATE['c'] = w.boot(lambda e: irexpr.Ctl().boot(e, {0: lambda e, M: e.h('h_foldpass', M, 0), 1: lambda e, M: e.h('h_foldpass', M, 1)}))
    STATE['pow'] = pow_candidates(w)
    STATE['exe'] = nat()
    return STATE

# ---------------------------------------------------------------- the power loop
def pow_candidates(w):
    out = []
    for m in w.mods:
        for f in m.funcs.values():
            if f.is_decl or f.ret != ('i', 64) or [t for t, _ in f.params] != [('i', 64), ('i', 64)]: continue
            d = m.demangled.get(f.name, f.name)
            if 'codon::' not in d or 'const_fold' not in str(getattr(m, 'src', 'const_fold')): continue
            if llvc.loop_heads(f): out.append(f)
    return out
def pow_axiom(ctx, b, e):
    """recursion equation of the mathematical power, instantiated at (b, e)"""
    P = ns.POW; h = e >> 1
    ctx.assume(P(b, z3.BitVecVal(0, 64)) == 1)
    ctx.assume(z3.Implies(e > 0, P(b, e) == P(b * b, h) * z3.If(z3.Extract(0, 0, e) == 1, b, z3.BitVecVal(1, 64))))
def p_pow(task):
    w = STATE['w']
    if len(STATE['pow']) != 1: raise Unsupported('%d candidate power loops' % len(STATE['pow']))
    f = STATE['pow'][0]; task.functions.add('int_pow')
    heads = llvc.loop_heads(f)
    if len(heads) != 1: raise Unsupported('power function with %d loops' % len(heads))
    (head, body), = heads.items()
    ph = llvc.phis(f, head)
    if len(ph) < 3 or any(p[2] != ('i', 64) for p in ph): raise Unsupported('power loop variables not recognised')
    best = None
    for roles in itertools.permutations([p[0] for p in ph], 3):
        sub = core.Task('pow', timeout_ms=8000, deadline=task.deadline)
        def run(ctx):
            ex = w.exec(ctx)
            b0, e0 = ctx.fresh_bv('base', 64), ctx.fresh_bv('exp', 64); ctx.input('base', b0); ctx.input('exp', e0)
            R, B, E = roles; P = ns.POW
            def lh(ex, fr, prev, cur, visit):
                inc = {}
                for p in ph:
                    for v, bl in p[3]:
                        if bl == prev: inc[p[0]] = bv(ex.val(fr, p[2], v), 64)
                r, b, e = inc[R], inc[B], inc[E]
                ctx.prove(z3.simplify(r * P(b, e)) == P(b0, e0), 'power invariant (value) %s' % ('established' if prev not in body else 'preserved'))
                ctx.prove(e >= 0, 'power invariant %s' % ('established' if prev not in body else 'preserved'))
                if prev in body: raise PathEnd()
                vs = {p[0]: ctx.fresh_bv('h_' + p[0], 64) for p in ph}
                for k, v in vs.items(): fr.regs[(cur, k)] = v
                r, b, e = vs[R], vs[B], vs[E]; Q = P(b * b, e >> 1); one = z3.BitVecVal(1, 64)
                # the invariant, with the recursion equation P(b,e) = P(b*b, e>>1) * (b if e odd else 1) unfolded by cases
                ctx.assume(e >= 0)
                if ctx.branch(e == 0): ctx.assume(z3.And(r == P(b0, e0), P(b, e) == one))
                elif ctx.branch(e == one): ctx.assume(z3.And(z3.simplify(r * b) == P(b0, e0), Q == one))
                elif ctx.branch(z3.Extract(0, 0, e) == 1): ctx.assume(z3.simplify(r * b * Q) == P(b0, e0))
                else: ctx.assume(z3.simplify(r * Q) == P(b0, e0))
                ctx.cover('loop head')
            ex.hooks.loops[(f.name, head)] = lh
            pow_axiom(ctx, b0, e0)
            r = ex.run(f, [b0, e0])
            ctx.prove(bv(r, 64) == z3.If(e0 < 0, z3.BitVecVal(0, 64), P(b0, e0)), 'returns the wrapped power (0 for negative exponents)')
        try: core.explore(sub, run); ok = all(r.status == 'proved' for r in sub.results)
        except (Unsupported, core.PathLimit): continue
        nf = sum(r.status != 'proved' for r in sub.results)
        if best is None or nf < best[0]: best = (nf, sub)
        if nf == 0: break
    if best is None: raise Unsupported('power loop not analysable')
    sub = best[1]
    if best[0] and len(STATE['pow']) == 1:
        # no assignment of roles works: undecided by proof, the finder decides
        if any(r.status == 'failed' for r in sub.results): raise Unsupported('no power invariant of the expected form: ' + '; '.join(r.name for r in sub.results if r.status != 'proved')[:200])
    task.results += sub.results; task.paths += sub.paths; task.solver_time += sub.solver_time
    for k, v in sub.covers.items(): task.covers[k] = v
    POWOK.append(1)
POWOK = []

# ---------------------------------------------------------------- handle()
def lit(ctx, t, nm):
    if t == 'int': v = ctx.fresh_bv(nm, 64)
    elif t == 'float': v = z3.FP(ctx.fresh_name(nm), ns.F64)
    elif t == 'bool': v = ctx.fresh_bool(nm)
    else: return None
    ctx.input(nm, v)
    return ('const', t, v)
def shapes(key):
    n, ts, m = key
    if len(ts) == 1:
        s = ['c', 'v', 'o'] if ts[0] in ns.SORT else ['v', 'o']
        return [(x,) for x in s] + ([('nv',), ('no',), ('nc',)] if ts[0] in ('int', 'float', 'bool') and ns.ret(n, list(ts)) == ts[0] and m else [])
    cc = lambda t: ['c', 'v', 'o'] if t in ns.SORT else ['v', 'o']
    if not m or any(t not in ns.SORT for t in ts): return [tuple(q if q in cc(t) else 'v' for t in ts) for q in 'cvo'][0 if any(t in ns.SORT for t in ts) else 1:]
    return list(itertools.product(cc(ts[0]), cc(ts[1])))
def mk(ctx, t, k, i, key):
    if k == 'c': return lit(ctx, t, 'xy'[i])
    if k == 'v': return ('var', t, i)
    if k == 'o': return ('opq', t, i)
    return ('op', key, [mk(ctx, t, k[1], i, key)])
def p_handle(task, keys, py):
    w, c = STATE['w'], STATE['c']
    for key in keys:
        for sh in shapes(key):
            def run(ctx):
                hk = irw.base_hooks()
                if len(STATE['pow']) == 1:
                    def hp(ex, a, n):
                        b, e = bv(a[0], 64), bv(a[1], 64)
                        return llvc.simp(z3.If(e < 0, z3.BitVecVal(0, 64), ns.POW(b, e)))
                    hk.onx(STATE['pow'][0].name, hp)
                ex = w.exec(ctx, hooks=hk)
                tr = ('op', key, [mk(ctx, t, k, i, key) for i, (t, k) in enumerate(zip(key[1], sh))])
                call = irexpr.build(ex, c, tr)
                ctx.cover('%s %s %s' % (key[0], key[1], sh))
                try: ex.h('h_fold', c.passes[py], call)
                except llvc.CxxThrow as e: ctx.prove(False, 'folder raised %s' % e); return
                new = irexpr.read(ex, c, call)
                for fnm in ex.executed:
                    d = ex.dem(fnm)
                    if 'folding' in d or '::isCallOf' in d: task.functions.add(re.sub(r'\(.*', '', d)[:120])
                irexpr.equivalent(ctx, py, tr, new, where='%s %s' % (irexpr.show(tr)[:80], 'py' if py else 'c'))
            core.explore(task, run)

def p_rewriter(task):
    """Rewriter::rewrite replaces a value exactly by the last result: a non-foldable call is untouched and not re-registered"""
    w, c = STATE['w'], STATE['c']
    def run(ctx):
        ex = w.exec(ctx)
        call = irexpr.build(ex, c, ('op', ('__add__', ('int', 'int'), True), [('var', 'int', 0), ('var', 'int', 1)]))
        ex.h('h_fold', c.passes[0], call)
        ctx.prove(ex.h('h_actual', call) == call, 'unmatched call is left in place')
    core.explore(task, run)

def tasks(tier):
    ks = [(k[0], k[1], k[4]) for k in irexpr.method_keys()]
    ts = [T('int_pow', p_pow), T('rewriter', p_rewriter)]
    for py in (0, 1):
        for k in ks:
            # operators of other classes and look-alikes: every rule must leave them alone (Python numerics registers the same rules for them)
            if py and tier == 'quick' and (not k[2] or any(t not in ns.SORT for t in k[1])) and k[0] not in ('__floordiv__', '__mod__', '__truediv__', '__add__'): continue
            ts.append(T('handle[%s %s%s%s]' % (k[0], ','.join(k[1]), '' if k[2] else ' plain', ' py' if py else ''), p_handle, ([k], py), unit='handle'))
    return ts

# ---------------------------------------------------------------- bounded stand-in: the complete pass on concrete trees
def f_grid(rep, part, nparts):
    cases = []
    for i, k in enumerate(irfind.KEYS):
        if i % nparts != part or not all(t in ns.SORT for t in k[1]): continue
        def ops(t, full): return [('const', t, v) for v in irfind.EDGE[t]]
        dom = [[('const', t, v) for v in irfind.EDGE[t]] for t in k[1]]
        for py in (0, 1):
            for a in itertools.product(*dom): cases.append((py, ('op', k, list(a))))
            if len(k[1]) == 2:
                for v in dom[1]: cases += [(py, ('op', k, [('var', k[1][0], 0), v])), (py, ('op', k, [('opq', k[1][0], 0), v]))]
                for v in dom[0]: cases += [(py, ('op', k, [v, ('var', k[1][1], 0)])), (py, ('op', k, [v, ('opq', k[1][1], 0)]))]
    irfind.run(rep, STATE['exe'], cases, rep.name)
def f_random(rep, part, n):
    import random
    rng = random.Random('%s/%d' % (rep.seed, part))
    cases = [(rng.randrange(2), irfind.gen(rng, rng.choice(['int', 'int', 'float', 'bool']), rng.choice([2, 2, 3, 4]), small=rng.random() < .5)) for _ in range(n)]
    irfind.run(rep, STATE['exe'], cases, rep.name)
def finders(tier):
    if 'exe' not in STATE: return []
    n = 3000 if tier == 'quick' else 20000
    return [T('grid%d' % i, f_grid, (i, 6), timeout=300) for i in range(6)] + [T('random%d' % i, f_random, (i, n), timeout=400) for i in range(6)]
