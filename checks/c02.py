"""C02: canonicalization only rewrites expressions into equivalent ones (codon/cir/transform/cleanup/canonical.cpp)."""
import os, re, itertools, random
import z3
import core, llbuild, llvc, irw, irexpr, irfind, numspec as ns
from core import PathEnd, Unsupported
from check import T
PROP = 'C02'; LEVEL = 'proof'
TECHNIQUE = 'deductive verification: postcondition of CanonicalizationPass::rewrite/handle on LLVM IR of the real C++ (rules, ranking, IR classes inlined), expression equivalence by SMT over 64-bit and IEEE arithmetic'
NOTE = ('For every operator and every operand shape listed (operand chains up to four leaves, sums of products with every position of the shared factor, subtraction of constants, comparisons; every rank order), '
        'the rewritten expression is proved equal to the original for all variable and literal values, and an expression with possible effects is proved to be left alone. '
        'The complete pass with the real side-effect analysis also runs natively on generated trees (bounded).')
ASSUMPTIONS = ['operand chains longer than four leaves and deeper nesting than listed are covered by the bounded runs only',
               'commutative/associative/distributive attributes are those of the built-in int/float/bool methods; comparison methods of other classes mirror each other',
               'an expression whose status is PURE has no effect other than raising', 'NaN payloads are not distinguished',
               'Module::getOrRealizeMethod is replaced by the table of built-in operators']
TRUSTED = ['clang 18 and LLVM inliner', 'dv/llparse.py, dv/llvc.py (IR semantics)', 'harness/rt.cpp (list/tree/hash primitives of libstdc++)', 'z3', 'cvc5']
TUS = irw.BASE + ['codon/cir/transform/folding/const_fold.cpp', 'codon/cir/transform/pass.cpp', 'codon/compiler/error.cpp', 'codon/parser/common.cpp', 'codon/cir/transform/cleanup/canonical.cpp',
                  'codon/cir/util/matching.cpp', 'codon/cir/util/side_effect.cpp', 'codon/util/common.cpp', 'codon/cir/analyze/module/side_effect.cpp']
STATE = {}
def setup(tmp, tier):
    lls = irw.compile_all(TUS, tmp)
    nat = irw.native_async(lls, tmp, os.path.join(irw.HARN, 'drv_ir.cpp'))
    w = STATE['w'] = irw.World(lls)
    STATE['c'] = w.boot(lambda e: irexpr.Ctl().boot(e, {0: lambda e, M: e.h('h_canonpass', M)}))
    STATE['exe'] = nat()
    return STATE

def K(n, *ts): return (n, ts, True)
def op(n, a, b): return ('op', K(n, irfind.typ(a), irfind.typ(b)), [a, b])
def V(t, i): return ('var', t, i)
C = lambda t, n: ('sym', t, n)          # literal with a symbolic value
def sub(ctx, tr, seen=None):
    seen = {} if seen is None else seen
    if tr[0] == 'sym':
        if tr not in seen:
            t, n = tr[1], 'c_%s%d' % tr[1:]
            v = {'int': lambda: ctx.fresh_bv(n, 64), 'float': lambda: z3.FP(ctx.fresh_name(n), ns.F64), 'bool': lambda: ctx.fresh_bool(n)}[t](); ctx.input(n, v); seen[tr] = ('const', t, v)
        return seen[tr]
    if tr[0] == 'op': return ('op', tr[1], [sub(ctx, x, seen) for x in tr[2]])
    return tr
def brackets(ls, n):
    """every bracketing of an operand chain"""
    if len(ls) == 1: return [ls[0]]
    return [op(n, a, b) for k in range(1, len(ls)) for a in brackets(ls[:k], n) for b in brackets(ls[k:], n)]
def leaves(t, i): return [V(t, i), C(t, i)] if t in ns.SORT else [V(t, i)]
SCAL = ('int', 'float', 'bool')
def shapes(tier):
    """-> {group: [trees]}"""
    out = {}
    for k in irfind.KEYS:
        n, ts, m = k
        g = out.setdefault('%s %s%s' % (n.strip('_'), ','.join(ts), '' if m else ' plain'), [])
        if len(ts) == 1: g.append(('op', k, [V(ts[0], 0)])); continue
        a, b = ts
        g += [('op', k, [V(a, i), V(b, j)]) for i, j in ((0, 1), (1, 0), (2, 3), (3, 2))] + [('op', k, [V(a, 0), V(b, 0)])]
        if b in SCAL: g.append(('op', k, [V(a, 1), C(b, 0)]))
        if a in SCAL: g.append(('op', k, [C(a, 0), V(b, 1)]))
        if a in SCAL and b in SCAL and m:
            g.append(('op', k, [C(a, 0), C(b, 1)]))
            # deeper operands rank first
            if n in ns.CMP or n in ('__add__', '__mul__', '__sub__'):
                for x, y in ((a, b), (b, a)):
                    if ns.ret('__add__', [x, x]) == x:
                        d = op('__add__', V(x, 1), V(x, 2)); s = V(y, 0)
                        g.append(('op', k, [d, s] if (x, y) == (a, b) else [s, d]))
    chains = [('__add__', 'int'), ('__mul__', 'int'), ('__and__', 'int'), ('__or__', 'int'), ('__xor__', 'int'), ('__and__', 'bool'), ('__or__', 'bool'), ('__xor__', 'bool'),
              ('__add__', 'float'), ('__mul__', 'float'), ('__sub__', 'int'), ('__sub__', 'float')]
    for n, t in chains:
        g = out['chain3 %s %s' % (n.strip('_'), t)] = []
        for p in itertools.permutations([V(t, 0), V(t, 1), V(t, 2)]): g += brackets(list(p), n)
        for p in ([V(t, 0), C(t, 0), V(t, 1)], [C(t, 0), V(t, 1), C(t, 1)], [C(t, 0), C(t, 1), V(t, 0)], [V(t, 1), V(t, 0), C(t, 0)], [V(t, 0), V(t, 1), V(t, 0)]): g += brackets(p, n)
        g = out['chain4 %s %s' % (n.strip('_'), t)] = []
        for p in ([V(t, 3), V(t, 1), V(t, 0), V(t, 2)], [V(t, 0), C(t, 0), V(t, 3), C(t, 1)]): g += brackets(p, n)
    # mixed operators inside a chain are operands, not links
    out['mixed'] = [op('__add__', op('__mul__', V('int', 0), V('int', 1)), V('int', 2)), op('__mul__', op('__add__', V('int', 0), V('int', 1)), V('int', 2)), op('__add__', V('int', 0), op('__sub__', V('int', 1), V('int', 2))),
                    op('__sub__', op('__sub__', V('int', 0), C('int', 0)), C('int', 1)), op('__sub__', op('__add__', V('int', 0), C('int', 0)), C('int', 1)), op('__add__', V('int', 0), op('__floordiv__', V('int', 1), V('int', 2))),
                    op('__add__', op('__add__', V('int', 0), V('int', 1)), V('bool', 0)), op('__add__', op('__add__', V('int', 0), V('bool', 0)), op('__add__', V('int', 1), V('bool', 1)))]
    for t in ('int', 'float'):
        for mul2 in (t, 'float'):
            g = out['addmul %s %s' % (t, mul2)] = []
            x = V(t, 0)
            def prods(i):
                o = []
                for q in leaves(mul2, i) + ([op('__add__', V(mul2, 2), V(mul2, 3))] if i == 1 else []): o += [op('__mul__', x, q), op('__mul__', q, x)]
                return o
            pa, pb = prods(1), prods(2) + [x]
            for o in ('__add__', '__sub__'):
                for p in pa:
                    for q in pb:
                        g.append(op(o, p, q))
                        if o == '__add__' and q == x: g.append(op(o, q, p))
            g.append(op('__add__', op('__mul__', V(t, 0), V(mul2, 1)), op('__mul__', V(t, 2), V(mul2, 3))))
            if t == 'int': g.append(op('__add__', op('__mul__', x, x), op('__mul__', x, x))); g.append(op('__add__', op('__mul__', x, x), x))
    return out
def p_rewrite(task, trees):
    w, c = STATE['w'], STATE['c']
    for t0 in trees:
        def run(ctx):
            ex = w.exec(ctx)
            tr = sub(ctx, t0)
            call = irexpr.build(ex, c, tr)
            ctx.cover(irexpr.show(t0) if 0 else str(t0)[:100])
            ex.h('h_seresult', call, 0)
            try: ex.h('h_canon_handle', c.passes[0], call)
            except llvc.CxxThrow as e: ctx.prove(False, 'pass raised %s' % e); return
            new = irexpr.read(ex, c, call)
            for fnm in ex.executed:
                d = ex.dem(fnm)
                if 'cleanup' in d or '::isCallOf' in d or 'util::match' in d: task.functions.add(re.sub(r'\(.*', '', d)[:120])
            for py in (False, True): irexpr.equivalent(ctx, py, tr, new, where=irexpr.show(tr)[:80], pure=True)
        core.explore(task, run)
def p_effects(task, key):
    """an expression that may have effects (any status but PURE, or no entry) is left exactly as it is"""
    w, c = STATE['w'], STATE['c']
    n, ts, m = key
    for st in (-1, 1, 2, 3):
        for o in ((('opq', ts[0], 1), ('opq', ts[1], 0)), (('opq', ts[0], 0), ('opq', ts[1], 1)), (V(ts[0], 1), V(ts[1], 0)), (V(ts[0], 0), V(ts[1], 1))):
            def run(ctx):
                ex = w.exec(ctx)
                tr = ('op', key, list(o)); call = irexpr.build(ex, c, tr)
                ex.h('h_seresult', call, st)
                ctx.cover('effects %s %d' % (key[0], st))
                ex.h('h_canon_handle', c.passes[0], call)
                ctx.prove(irexpr.read(ex, c, call) == tr, 'an expression with possible effects is left alone', irexpr.show(tr))
            core.explore(task, run)
def tasks(tier):
    ts = []
    for g, trees in shapes(tier).items():
        n = 24
        for i in range(0, len(trees), n): ts.append(T('rewrite[%s%s]' % (g, '#%d' % (i // n) if len(trees) > n else ''), p_rewrite, (trees[i:i + n],), unit='rewrite'))
    for k in irfind.KEYS:
        if len(k[1]) == 2 and k[2] and all(t in SCAL for t in k[1]) and (k[0] in ns.CMP[:3] or k[0] in ('__add__', '__mul__', '__sub__', '__xor__')): ts.append(T('effects[%s %s]' % (k[0].strip('_'), ','.join(k[1])), p_effects, (k,), unit='effects'))
    return ts

# ---------------------------------------------------------------- bounded stand-in
def f_shapes(rep, part, nparts):
    rng = random.Random('%s/%d' % (rep.seed, part)); cases = []
    def inst(tr, m):
        if tr[0] == 'sym':
            if tr not in m: m[tr] = irfind.const(rng, tr[1])
            return m[tr]
        return ('op', tr[1], [inst(x, m) for x in tr[2]]) if tr[0] == 'op' else tr
    def opq(tr, p): return ('opq',) + tr[1:] if tr[0] == 'var' and rng.random() < p else ('op', tr[1], [opq(x, p) for x in tr[2]]) if tr[0] == 'op' else tr
    for i, trees in enumerate(shapes('quick').values()):
        if i % nparts != part: continue
        for t in trees:
            for _ in range(4): cases.append((2, inst(t, {})))
            cases.append((2, opq(inst(t, {}), .4)))
    irfind.run(rep, STATE['exe'], cases, rep.name, kind='canon')
def chain(rng, t, n, k):
    if k == 1: return irfind.gen(rng, t, 0, .6, .05)
    j = rng.randrange(1, k); return op(n, chain(rng, t, n, j), chain(rng, t, n, k - j))
def f_random(rep, part, n):
    rng = random.Random('%s/r%d' % (rep.seed, part)); cases = []
    for _ in range(n):
        r = rng.random()
        if r < .3:
            nm, t = rng.choice([('__add__', 'int'), ('__mul__', 'int'), ('__and__', 'int'), ('__or__', 'int'), ('__xor__', 'bool'), ('__add__', 'float'), ('__mul__', 'float')])
            cases.append((2, chain(rng, t, nm, rng.randrange(2, 8))))
        else: cases.append((2, irfind.gen(rng, rng.choice(['int', 'int', 'float', 'bool']), rng.choice([2, 3, 4]), .5, .05, small=rng.random() < .5)))
    irfind.run(rep, STATE['exe'], cases, rep.name, kind='canon')
def finders(tier):
    if 'exe' not in STATE: return []
    n = 2500 if tier == 'quick' else 20000
    return [T('shapes%d' % i, f_shapes, (i, 4), timeout=300) for i in range(4)] + [T('random%d' % i, f_random, (i, n), timeout=400) for i in range(6)]
