"""C18: every IR node reports and replaces exactly its operands (codon/cir/{value,var,func,instr,flow,const,base}.*, types, OMPSched)."""
import os, random, subprocess
import z3
import core, irw, llvc
from core import PathEnd, Unsupported
from check import T
PROP = 'C18'; LEVEL = 'proof'
TECHNIQUE = 'deductive verification: contracts of getUsed*/replaceUsed*/getType/replaceAll of every IR node class, checked on LLVM IR of the real C++ with symbolic node identities (z3)'
NOTE = ('For every IR node class: the operands reported are the operands held; replaceUsedValue/Variable(id) with arbitrary 64-bit identities (any aliasing among positions) substitutes exactly the positions whose identity matches '
        'and returns their number; replaceUsedType by name likewise; getType follows from the operands; a node replaced by replaceAll behaves as its replacement; no invalid memory access. '
        'Operand lists are unrolled for the lengths listed in the harness (0..4; bounded in length), longer ones run natively.')
ASSUMPTIONS = ['operand lists (call arguments, series, handlers, stages, parameters) have the lengths built by harness/irn.cpp: a bound on the length, not on identities or aliasing',
               'replacement flows are given where the slot holds a flow (API precondition, asserted by the code)', 'nodes of user plugins (codon/dsl) define their own operands',
               'Module::getOrRealizeType is replaced by the two built-in types it is asked for']
TRUSTED = ['clang 18 and LLVM inliner', 'dv/llparse.py, dv/llvc.py (IR semantics)', 'harness/rt.cpp (list/tree/hash primitives of libstdc++)', 'harness/irn.cpp (which accessor names which operand)', 'z3']
TUS = irw.BASE + ['codon/cir/transform/parallel/schedule.cpp', 'codon/compiler/error.cpp', 'codon/parser/common.cpp', 'codon/util/common.cpp']
STATE = {}
W = ('values', 'variables', 'types')
RICH = ('ImperativeForFlow4', 'TryCatchFlow3/3', 'AwaitInstr', 'BodiedFunc3', 'LLVMFunc3')
def setup(tmp, tier):
    lls = irw.compile_all(TUS, tmp, harness='irn.cpp')
    nat = irw.native_async(lls, tmp, os.path.join(irw.HARN, 'drv_irn.cpp'))
    w = STATE['w'] = irw.World(lls)
    def boot(e):
        e.h('h_nmodule'); e.h('h_ncases'); out = []
        for i in range(e.h('h_ncount')):
            c = e.h('h_ncase', i); p = e.h('h_nname', c); nm = ''
            while True:
                b = e.load_raw(e.padd(p, len(nm)), 1)
                if not b: break
                nm += chr(b)
            out.append((nm, c, e.h('h_nkind', c), [e.h('h_nslots', c, k) for k in range(3)]))
        return out
    STATE['cases'] = w.boot(boot)
    STATE['exe'] = nat()
    return STATE

def key(p): return (p.obj, p.off) if isinstance(p, llvc.Ptr) else p
def slots(ex, c, w, n): return [ex.h('h_nget', c, w, i) for i in range(n)]
def used(ex, c, w, const=False):
    n = ex.h('h_nusedc' if const else 'h_nused', c, w)
    return sorted(str(key(ex.h('h_nusedi', c, w, i))) for i in range(n))
def keys(l): return [key(x) for x in l]
def run(task, fn, what):
    w = STATE['w']
    def go(ctx):
        ctx.who = what
        ex = w.exec(ctx); fn(ctx, ex)
    core.explore(task, go)
def p_report(task, i):
    nm, c, kind, ns = STATE['cases'][i]
    def go(ctx, ex):
        for k in range(3):
            exp = sorted(str(key(ex.h('h_norig', c, k, j))) for j in range(ns[k]))
            ctx.prove(used(ex, c, k) == exp, '%s reports exactly its %s' % (nm, W[k]), nm)
            if k < 2: ctx.prove(used(ex, c, k, True) == exp, '%s reports exactly its %s (const)' % (nm, W[k]), nm)
        et = ex.h('h_nexptype', c)
        if isinstance(et, llvc.Ptr): ctx.prove(key(ex.h('h_ntype', c)) == key(et), 'type of %s follows from its operands' % nm, nm)
    run(task, go, nm)
def check_subst(ctx, ex, nm, c, ns, k, old, hits, cnt, new, where):
    now = slots(ex, c, k, ns[k])
    tot = 0
    for j in range(ns[k]):
        h = hits[j]
        a, o, n = key(now[j]), key(old[j]), key(new)
        if isinstance(h, bool): ctx.prove(a == (n if h else o), '%s: position %d of %s is replaced iff it held the operand' % (nm, j, W[k]), where)
        else: ctx.prove(h if a == n else z3.Not(h) if a == o else z3.BoolVal(False), '%s: position %d of %s is replaced iff it held the operand' % (nm, j, W[k]), where)
        tot = tot + (z3.If(h, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)) if not isinstance(h, bool) else int(h))
    if isinstance(tot, int) and isinstance(cnt, int): ctx.prove(tot == cnt, '%s: number of substituted %s' % (nm, W[k]), where)
    else: ctx.prove((tot if not isinstance(tot, int) else z3.BitVecVal(tot, 32)) == (cnt if not isinstance(cnt, int) else z3.BitVecVal(cnt, 32)), '%s: number of substituted %s' % (nm, W[k]), where)
def p_replace(task, i, k):
    """symbolic identities"""
    nm, c, kind, ns = STATE['cases'][i]
    def go(ctx, ex):
        old = slots(ex, c, k, ns[k]); ids = []
        for j, o in enumerate(old):
            v = ctx.fresh_bv('id%d' % j, 64); ctx.input('id%d' % j, v); ids.append(v); ex.h('h_nsetid', k, o, v)
        q = ctx.fresh_bv('query', 64); ctx.input('query', q)
        rest = [keys(slots(ex, c, m, ns[m])) for m in range(3) if m != k]
        new = ex.h('h_nnew', k)
        cnt = ex.h('h_nreplace_id', c, k, q, new)
        check_subst(ctx, ex, nm, c, ns, k, old, [v == q for v in ids], cnt, new, nm)
        ctx.prove([keys(slots(ex, c, m, ns[m])) for m in range(3) if m != k] == rest, '%s: other operands unchanged' % nm, nm)
        ctx.prove(used(ex, c, k) == sorted(str(x) for x in keys(slots(ex, c, k, ns[k]))), '%s reports exactly its %s afterwards' % (nm, W[k]), nm)
    run(task, go, nm)
def p_types(task, i):
    nm, c, kind, ns = STATE['cases'][i]
    for j in list(range(ns[2])) + [-1]:
        for how in ('name', 'type'):
            def go(ctx, ex, j=j, how=how):
                old = slots(ex, c, 2, ns[2])
                q = old[j] if j >= 0 else next(t for t in (ex.h('h_nty', m) for m in (1, 0, 2)) if key(t) not in keys(old))
                new = ex.h('h_nty', 2)
                cnt = ex.h('h_nreplace_ty', c, q, new) if how == 'name' else ex.h('h_nreplace_old', c, 2, q, new)
                rest = [keys(slots(ex, c, m, ns[m])) for m in (0, 1)]
                check_subst(ctx, ex, nm, c, ns, 2, old, [key(o) == key(q) for o in old], cnt, new, '%s by %s' % (nm, how))
            run(task, go, nm)
def p_alias(task, i):
    nm, c, kind, _ = STATE['cases'][i]
    for (dn, d, dk, ns) in STATE['cases']:
        if dn not in RICH or dn == nm or dk != kind: continue
        def go(ctx, ex):
            ex.h('h_nalias', c, d); where = '%s replaced by %s' % (nm, dn)
            for k in range(3):
                exp = sorted(str(x) for x in keys(slots(ex, d, k, ns[k])))
                ctx.prove(used(ex, c, k) == exp, 'a replaced node reports the %s of its replacement' % W[k], where)
                if k < 2: ctx.prove(used(ex, c, k, True) == exp, 'a replaced node reports the %s of its replacement (const)' % W[k], where)
            if kind == 0: ctx.prove(key(ex.h('h_ntype', c)) == key(ex.h('h_ntype', d)), 'type of a replaced node', where)
            ctx.prove(ex.h('h_nidof', c) == ex.h('h_nidof', d), 'identity of a replaced node', where)
            for k in range(3):
                old = slots(ex, d, k, ns[k])
                if not old: continue
                new = ex.h('h_nnew', k) if k < 2 else ex.h('h_nty', 2)
                cnt = ex.h('h_nreplace_old', c, k, old[0], new)
                check_subst(ctx, ex, dn, d, ns, k, old, [key(o) == key(old[0]) for o in old], cnt, new, where)
        run(task, go, nm)
def tasks(tier):
    ts = []
    for i, (nm, c, kind, ns) in enumerate(STATE['cases']):
        ts.append(T('report[%s]' % nm, p_report, (i,), unit=nm))
        if kind == 2: continue
        for k in (0, 1): ts.append(T('replace %s[%s]' % (W[k], nm), p_replace, (i, k), unit=nm))
        ts.append(T('replace types[%s]' % nm, p_types, (i,), unit=nm))
        ts.append(T('replaceAll[%s]' % nm, p_alias, (i,), unit=nm))
    # few processes: group small obligations
    out = []
    for j in range(0, len(ts), 8):
        g = ts[j:j + 8]; out.append(T('%s..%s' % (g[0].name, g[-1].name), p_group, (g,), unit='group'))
    return out
def p_group(task, g):
    err = None
    for t in g:
        try: t.fn(task, *t.args)
        except Unsupported as e: err = Unsupported('%s: %s' % (t.name, e))
    if err: raise err
def f_native(rep, part, trials):
    out = os.path.join(os.environ.get('VERIF_TMP', '/tmp'), 'irn%d' % part)
    subprocess.run([STATE['exe'], str(rep.seed * 100 + part), str(trials), out], timeout=500, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    done = False
    for l in open(out):
        if l[0] == 'N': rep.n += int(l[2:]); done = True
        else:
            nm, w, what, t = l[2:].rstrip('\n').split('|')
            rep.fail('%s:%s:%s' % (nm, w, what), '%s, %s: %s (native run, trial/partner %s, seed %d)' % (nm, w, what, t, rep.seed * 100 + part))
    if not done: raise RuntimeError('native driver did not finish')
def finders(tier):
    if 'exe' not in STATE: return []
    return [T('native%d' % i, f_native, (i, 60 if tier == 'quick' else 2000), timeout=400) for i in range(2 if tier == 'quick' else 6)]
