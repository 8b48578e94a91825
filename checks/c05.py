"""C05: range() and counted loops visit exactly the arithmetic progression (stdlib range.codon, lowering/imperative.cpp, llvisitor.cpp)."""
import os, random, re, subprocess, itertools
from concurrent.futures import ThreadPoolExecutor
import z3
import core, cfe, cstd, llbuild, llparse, llvc
from core import Unsupported, PathEnd
from cfe import Loop, UB
from llvc import Hooks, Exec
from check import T
PROP = 'C05'; LEVEL = 'proof'
TECHNIQUE = 'deductive verification: contracts and loop invariants on range.codon (extracted on every run) and on the LLVM IR the compiler emits for a lowered loop, discharged by SMT'
NOTE = ('range methods for all 64-bit start and stop with |start|, |stop|, |step| below 2^61: iteration (loop invariant), length, indexing, membership, index. The emitted loop: for all 64-bit bounds, every step of a list of constants, '
        'first three visits and the exit decisions (the loop state is the counter alone). Extreme spans, slices, reversed ranges and whole loops run concretely (bounded).')
ASSUMPTIONS = ['the lowered loop keeps no state but its counter from one iteration to the next (so three iterations from an arbitrary start stand for all)', 'for a product: |a*b| >= |b| when a is not 0 (lemma used for membership)', 'steps of lowered loops are taken from a list of constants']
TRUSTED = ['clang 18, LLVM 20 llc', 'dv/llparse.py, dv/llvc.py (IR semantics)', 'dv/cparse.py, dv/cfe.py (extraction and semantics of the Codon subset)', 'harness/drv_range.cpp (builds the loops)', 'z3', 'cvc5']
EXPLANATION = 'functions are read from /repo on every run; see DESIGN.md section 2'
BUDGET = {'quick': 300, 'thorough': 1500}
HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
STATE = {}; M63 = 1 << 63
STEPS = [1, -1, 2, -2, 3, -3, 7, -10, 100, 1 << 31, -(1 << 31), (1 << 31) + 5, (1 << 33) + 1, -(1 << 33) - 3, 1 << 62, M63 - 1, -M63, 0]
SRCS = ['codon/cir/transform/lowering/imperative.cpp', 'codon/cir/llvm/llvisitor.cpp']
def setup(tmp, tier):
    lib = llbuild.REPO + '/_build'; exe = os.path.join(tmp, 'drv')
    link = ['-L' + lib, '-lcodonc', '-lfmt', '-Wl,-rpath,' + lib, '-Wl,-rpath,/usr/lib/llvm-20/lib', '-L/usr/lib/llvm-20/lib', '-lLLVM-20', '-lpthread', '-ldl', '-Wl,--allow-multiple-definition']
    def run(cmd):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise RuntimeError(p.stderr[-1200:])
        return p.stdout
    # the second copy of llvisitor.cpp may not register its command-line options again: their names get a prefix
    src = os.path.join(tmp, 'llvisitor.cpp'); open(src, 'w').write(re.sub(r'(\bcl::opt<[^;{}"]*?>\s*\w+\s*\(\s*")', r'\1drv-', open(os.path.join(llbuild.REPO, SRCS[1])).read()))
    with ThreadPoolExecutor(8) as ex:
        o = [ex.submit(run, llbuild.CXX + ['-O0', '-fno-access-control', '-I' + os.path.dirname(os.path.join(llbuild.REPO, SRCS[1])), '-c', s, '-o', os.path.join(tmp, '%d.o' % i)]) for i, s in enumerate([os.path.join(HARN, 'drv_range.cpp')] + [os.path.join(llbuild.REPO, SRCS[0]), src])]
        for f in o[1:]: f.result()
        try: o[0].result()
        except RuntimeError as e: STATE['why'] = str(e); return STATE
    run(['clang++-18', '-o', exe] + [os.path.join(tmp, '%d.o' % i) for i in range(3)] + link)
    ll = os.path.join(tmp, 'loops.ll')
    p = subprocess.run([exe, ll] + list(map(str, STEPS)), capture_output=True, text=True, timeout=120)
    STATE['out'] = dict(l.split() for l in p.stdout.split('\n') if len(l.split()) == 2); STATE['rc'] = p.returncode; STATE['err'] = p.stderr[-600:]
    if p.returncode == 0:
        txt = open(ll).read(); STATE['txt'] = txt; STATE['fn'] = {re.sub(r'\.\d+$', '', n): n for n in re.findall(r'^define [^@\n]*@"?([\w.]+)"?\(', txt, re.M)}
        try: run(['/usr/lib/llvm-20/bin/opt', '-S', '-passes=strip', ll, '-o', ll + '2']); STATE['m'] = llparse.Module(open(ll + '2').read())
        except Exception as e: STATE['merr'] = repr(e)
        run(['/usr/lib/llvm-20/bin/llc', '-O0', '-filetype=obj', '-relocation-model=pic', ll, '-o', os.path.join(tmp, 'loops.o')])
        c = ['#include <stdio.h>', '#include <stdlib.h>', '#include <setjmp.h>', '#include <string.h>', 'typedef long long L; static jmp_buf jb; static int cnt, stopv, sk;', 'void emit(L x) { printf(" %lld", x); if (++cnt == 40) longjmp(jb, 1); }',
             'int skip(L x) { if (++sk > 2000000) longjmp(jb, 1); return x % 3 == 0; } int stop(L x) { return x == 20; } static unsigned long long np; L probe(L x) { np = np * 1000003 + x + 7; return x; }',
             'void seq_personality() {} void *seq_alloc() { return 0; } void seq_init() {} void seq_terminate() {}']
        names = [n for n in STATE['fn'] if re.match(r'r[123]_', n)]
        for i, n in enumerate(names): c.append('void f%d(L, L) __asm__("%s");' % (i, STATE['fn'][n]))
        c.append('struct { const char *n; void (*f)(L, L); } T[] = {%s};' % ', '.join('{"%s", f%d}' % (n, i) for i, n in enumerate(names)))
        c.append('int main() { char nm[64]; L a, b; while (scanf("%63s %lld %lld", nm, &a, &b) == 3) for (unsigned i = 0; i < sizeof T / sizeof *T; i++) if (!strcmp(nm, T[i].n)) { cnt = np = sk = 0; if (!setjmp(jb)) { T[i].f(a, b); printf(" ."); } else printf(" ..."); printf(" %llu\\n", np); } }')
        open(os.path.join(tmp, 'run.c'), 'w').write('\n'.join(c)); run(['clang-18', '-w', '-O1', os.path.join(tmp, 'run.c'), os.path.join(tmp, 'loops.o'), '-Wl,--defsym,mainx=0', '-Wl,--allow-multiple-definition', '-o', os.path.join(tmp, 'run')]); STATE['run'] = os.path.join(tmp, 'run')
    return STATE
# ---- library ----
def env():
    L = cstd.core_env(); cl = L.cls('internal/types/range.codon', 'range', skip=('__repr__',)); L.env['superf'] = lambda a, b, c: cfe.mkraw(cl, {'start': a, 'stop': b, 'step': c}); L.env['str'] = lambda x: ''; L.R = cl; return L
def rng(ctx, L, lim=1 << 61):
    a, b, s = (ctx.fresh_int(q) for q in ('start', 'stop', 'step'))
    for q, v in (('start', a), ('stop', b), ('step', s)): ctx.input(q, v); ctx.assume(z3.And(v >= -lim, v <= lim))
    return a, b, s
def before(v, b, s): return z3.If(s > 0, v < b, v > b)
def count_ok(a, b, s, c): span = z3.If(s > 0, b - a, a - b); m = z3.If(s > 0, s, -s); return z3.If(span <= 0, c == 0, z3.And(c >= 1, (c - 1) * m < span, span <= c * m))
def lenc(ctx, a, b, s):
    """contract of __len__ (its own task)"""
    def f(self):
        n = ctx.extra.get('n')
        if n is None: n = ctx.fresh_int('n'); ctx.assume(z3.And(n >= 0, n <= 1 << 62, count_ok(a, b, s, n))); ctx.extra['n'] = n
        return n
    return f
def p_method(task, op, py):
    L = env(); 
    def go(ctx):
        w = 'range.' + op; a, b, s = rng(ctx, L); r = cfe.mkraw(L.R, {'start': a, 'stop': b, 'step': s}); task.functions.add('internal/types/range.codon:' + w)
        cfe.use(cfe.RT(ctx, py=py, exact=True)).who = w
        if op == '__new__':
            try: r = L.R(a, b, s)
            except ValueError: ctx.prove(s == 0, 'an error is raised only for a zero step', w); ctx.cover('raises'); return
            ctx.prove(s != 0, 'a zero step is an error', w); ctx.prove(z3.And(r.start == a, r.stop == b, r.step == s), 'the range keeps its bounds', w)
            q = L.R(a, b); ctx.prove(z3.And(q.start == a, q.stop == b, q.step == 1), 'the default step is 1', w); q = L.R(b); ctx.prove(z3.And(q.start == 0, q.stop == b, q.step == 1), 'the default start is 0', w); ctx.cover('returns'); return
        ctx.assume(s != 0)
        if op == '__len__': n = cfe.len_(r); ctx.prove(count_ok(a, b, s, z3.IntVal(n) if type(n) is int else n), 'the length is the number of values', w); ctx.cover('returns'); return
        if op == '__bool__': r.__class__ = type(L.R)('range', (L.R,), {'__len__': lenc(ctx, a, b, s)}); ctx.prove(z3.BoolVal(cfe.t(r.__bool__())) == before(a, b, s), 'truth is non-emptiness', w); ctx.cover('returns'); return
        if op == '__getitem__':
            i = ctx.fresh_int('index'); ctx.input('index', i); ctx.assume(cfe.inr(i)); r.__class__ = type(L.R)('range', (L.R,), {'__len__': lenc(ctx, a, b, s)}); n = lenc(ctx, a, b, s)(r)
            j = z3.If(i < 0, i + n, i); inside = z3.And(i < n, i >= -n); m = z3.If(s > 0, s, -s)
            # monotone product: 0 <= j <= n - 1 gives j * m <= (n - 1) * m
            ctx.assume(z3.Implies(inside, z3.And(j * m >= 0, j * m <= (n - 1) * m, z3.If(s > 0, j * s == j * m, j * s == -(j * m)))))
            try: v = r[i]
            except IndexError: ctx.prove(z3.Not(inside), 'an error is raised only for an index out of range', w); ctx.cover('raises'); return
            ctx.prove(inside, 'an index out of range is rejected', w); ctx.prove(v == a + j * s, 'the value at the index', w); ctx.cover('returns'); return
        x = ctx.fresh_int('x'); ctx.input('x', x); ctx.assume(z3.And(x >= -(1 << 61), x <= 1 << 61)); k = ctx.fresh_int('k'); member = z3.And(k >= 0, before(a + k * s, b, s), x == a + k * s)
        q = z3.If(s > 0, (x - a) / s, (a - x) / (-s)); d = k - q
        lem = z3.Implies(d != 0, z3.If(d * s >= 0, d * s, -(d * s)) >= z3.If(s > 0, s, -s)); ring = k * s == q * s + d * s
        pos = z3.And(z3.Implies(z3.And(q >= 0, s > 0), q * s >= 0), z3.Implies(z3.And(q < 0, s > 0), q * s <= -s), z3.Implies(z3.And(q >= 0, s < 0), q * s <= 0), z3.Implies(z3.And(q < 0, s < 0), q * s >= -s))
        kp = z3.And(z3.Implies(z3.And(k >= 0, s > 0), k * s >= 0), z3.Implies(z3.And(k >= 0, s < 0), k * s <= 0))
        for f in (lem, ring, pos, kp): ctx.assume(f)
        if op == '__contains__':
            if cfe.t(r.__contains__(x)): ctx.prove(z3.And(q >= 0, before(a + q * s, b, s), x == a + q * s), 'a value reported as a member is visited', w); ctx.cover('yes')
            else: ctx.prove(z3.Not(member), 'a value reported as absent is not visited', w); ctx.cover('no')
        elif op == 'index':
            ctx.extra['c'] = c = ctx.fresh_bool('member'); ctx.assume(c == z3.And(q >= 0, before(a + q * s, b, s), x == a + q * s)); r.__class__ = type(L.R)('range', (L.R,), {'__contains__': lambda self, y: c})
            try: v = r.index(x)
            except ValueError: ctx.prove(z3.Not(c), 'an error is raised only for a value that is not visited', w); ctx.cover('raises'); return
            ctx.prove(c, 'a value that is not visited is rejected', w); ctx.prove(x == a + v * s, 'the position of the value', w); ctx.cover('returns')
    core.explore(task, go)
def p_iter(task, up):
    L = env()
    def go(ctx):
        w = 'range.__iter__'; task.functions.add('internal/types/range.codon:' + w); a, b, s = rng(ctx, L, M63); ctx.assume(z3.And(a < M63, b < M63, s < M63, s > 0 if up else s < 0)); G = {'k': z3.IntVal(0)}
        def hv(l): G['k'] = ctx.fresh_int('k'); return ctx.fresh_int('i')
        inv = lambda l: {'counter': z3.And(G['k'] >= 0, (l.i if cfe.sym(l.i) else z3.IntVal(l.i)) == a + G['k'] * s, cfe.inr(l.i) if cfe.sym(l.i) else True)}
        sp = Loop(inv, None, hav={'i': hv}); cfe.use(cfe.RT(ctx, loops={('range.__iter__', 0): sp, ('range.__iter__', 1): sp}, exact=True)).who = w
        g = cfe.mkraw(L.R, {'start': a, 'stop': b, 'step': s}).__iter__(); 
        # the invariant is consumed at the loop head: either the next value is handed out or the progression has ended
        try: v = next(g)
        except StopIteration: ctx.prove(z3.Not(before(a + G['k'] * s, b, s)), 'iteration ends only when the progression has passed the stop value', w); ctx.cover('ends'); return
        k = G['k']; ctx.prove(v == a + k * s, 'the next value of the progression is visited', w); ctx.prove(before(v, b, s), 'no value at or past the stop value is visited', w); ctx.cover('visits')
        G['k'] = k + 1; ctx.assume((k + 1) * s == k * s + s)
        try: next(g)
        except StopIteration: ctx.prove(z3.Not(before(a + (k + 1) * s, b, s)), 'iteration ends only when the progression has passed the stop value', w); ctx.cover('ends'); return
        raise Unsupported('a second value without passing the loop head')
    core.explore(task, go)
# ---- the emitted loop ----
def p_loop(task, name, nargs, step):
    if 'm' not in STATE: raise Unsupported(STATE.get('merr') or STATE.get('why') or STATE.get('err') or 'not built')
    if name not in STATE['fn']: raise Unsupported('not lowered')
    m = STATE['m']; f = m.funcs.get(STATE['fn'][name]) or m.funcs.get('@' + STATE['fn'][name])
    if f is None: raise Unsupported('function %s' % name)
    task.functions |= {'codon::ir::LLVMVisitor::visit(ImperativeForFlow)', 'codon::ir::transform::lowering::ImperativeForFlowLowering::handle'}
    class Done(Exception): pass
    def go(ctx):
        hk = Hooks(); ex = Exec([m], ctx, hooks=hk); seen = []; kind = int(name[-1]); base = ex.need
        def need(c, what):
            if 'signed' in what: return
            base(c, what)
        ex.need = need
        a, b = (ctx.input(q, ctx.fresh_bv(q, 64)) for q in ('start', 'stop'))
        A = a if nargs > 1 else z3.BitVecVal(0, 64); S = z3.BitVecVal(step, 64); up = step > 0
        if nargs == 1: args = [b]
        else: args = [a, b]
        def want(i): return A + i * S
        def ok(i): return want(i) < b if up else want(i) > b
        def nowrap(i):          # the i-th value follows the previous one without wrapping (the wrapping case is a recorded finding)
            return z3.BVAddNoOverflow(want(i - 1), S, True) if up else z3.BVAddNoUnderflow(want(i - 1), S)
        st = {'i': 0}
        def visit(ex, x, n):
            i = st['i']; v = llvc.bv(x[0], 64); 
            if i: ctx.assume(nowrap(i)) 
            ctx.prove(v == want(i), 'the next value of the progression is visited'); ctx.prove(ok(i), 'no value at or past the stop value is visited'); ctx.cover('visits')
            st['i'] += 1
            if st['i'] == 3: raise Done()
        sk = {}
        def flag(nm):
            def g(ex, x, n):
                i = st['i']; v = llvc.bv(x[0], 64)
                if nm == 'skip':
                    if i: ctx.assume(nowrap(i))
                    ctx.prove(v == want(i), 'the next value of the progression is seen by the body'); ctx.prove(ok(i), 'no value at or past the stop value is seen by the body')
                    if ctx.choose(2): st['i'] += 1; return 1 if st['i'] < 3 else (_ for _ in ()).throw(Done())
                    return 0
                if ctx.choose(2): st['left'] = True; return 1
                return 0
            return g
        hk.on(r'emit$', visit); hk.on(r'skip$', flag('skip')); hk.on(r'stop$', flag('stop')); 
        def probe(ex, x, n): pr.append(x[0]); return x[0]
        pr = []; hk.on(r'probe$', probe)
        def bounds_once():
            if kind == 1: ctx.prove(len(pr) == len(args) and z3.And([llvc.bv(u, 64) == v for u, v in zip(pr, args)]), 'start and stop are evaluated once, in this order')
        try: ex.run(f, args)
        except Done: return
        i = st['i']
        bounds_once()
        if st.get('left'): ctx.cover('left by break'); return
        if i: ctx.assume(nowrap(i))
        ctx.prove(z3.Not(ok(i)), 'the loop ends only when the progression has passed the stop value'); ctx.cover('ends')
    core.explore(task, go)
def tasks(tier):
    out = [T('range.%s%s' % (o, ' py' if py else ''), p_method, (o, py), unit='range.' + o, smt_ms=30000) for o in ('__new__', '__len__', '__bool__', '__getitem__', '__contains__', 'index') for py in (False, True)]
    out += [T('range.__iter__ %s' % ('up' if u else 'down'), p_iter, (u,), unit='range.__iter__') for u in (True, False)]
    for k in range(3):
        out += [T('loop 1 argument body %d' % k, p_loop, ('r1_%d' % k, 1, 1), unit='lowered loop'), T('loop 2 arguments body %d' % k, p_loop, ('r2_%d' % k, 2, 1), unit='lowered loop')]
        out += [T('loop step %d body %d' % (s, k), p_loop, ('r3_%d_%d' % (i, k), 3, s), unit='lowered loop') for i, s in enumerate(STEPS) if s and (k == 0 or abs(s) < 4 or tier != 'quick')]
    return out
# ---- concrete ----
EDGE = [0, 1, -1, 2, -2, 3, 5, -5, 10, -10, M63 - 1, M63 - 2, -M63, 1 - M63, 1 << 62, -(1 << 62)]
def attempt(f):
    cfe.CUR.budget = 20000
    try: return f()
    except UB as e: return 'undefined behaviour: %s' % e
    except (IndexError, ValueError, ZeroDivisionError, AssertionError, OverflowError) as e: return type(e).__name__
def head(g, n=12): return list(itertools.islice(g, n))
def ext(a, b, s): return abs(b - a) >= M63 - 1 or s == -M63
def f_lib(rep, part):
    L = env(); r = random.Random(rep.seed * 5 + part); v = lambda: r.choice(EDGE) if r.random() < .35 else r.randrange(-15, 16)
    for it in range(5000 if rep.tier == 'quick' else 100000):
        py = r.random() < .5; cfe.use(cfe.RT(py=py)); a, b, s = v(), v(), v(); tag = ' (python numerics)' if py else ''; na = r.choice((1, 2, 3, 3, 3)); args = ((b,), (a, b), (a, b, s))[na - 1]
        want = attempt(lambda: range(*args)); got = attempt(lambda: L.R(*args))
        if isinstance(want, str) or isinstance(got, str): rep.check(want == got, 'new', 'range%s gives %s, expected %s' % (args, got, want)); continue
        A, B, S = want.start, want.stop, want.step; x = ':extreme span' if ext(A, B, S) else ''
        w, g = head(iter(want)), attempt(lambda: head(got.__iter__())); rep.check(w == g, 'iter', 'range%s visits %s, expected %s' % (args, g, w))
        n = (lambda q: q if q <= M63 - 1 else None)(max(0, -(-(B - A) // S)))
        if n is not None: g = attempt(lambda: cfe.len_(got)); rep.check(g == n, 'len' + x, 'len(range%s)%s = %s, expected %s' % (args, tag, g, n))
        i = r.choice((v(), r.randrange(-6, 6)))
        if n is not None: w, g = attempt(lambda: want[i]), attempt(lambda: got[i]); rep.check(w == g, 'getitem' + x, 'range%s[%d]%s = %s, expected %s' % (args, i, tag, g, w))
        y = r.choice((v(), A + S * r.randrange(0, 4), A + S * r.randrange(-3, 4) + r.randrange(-1, 2)))
        if -M63 <= y < M63:
            xc = x or (':extreme span' if abs(y - A) >= M63 else '')
            w, g = y in want, attempt(lambda: cfe.t(got.__contains__(y))); rep.check(w == g, 'contains' + xc, '%d in range%s%s = %s, expected %s' % (y, args, tag, g, w))
            w, g = attempt(lambda: want.index(y)), attempt(lambda: got.index(y)); rep.check(w == g, 'index' + xc, 'range%s.index(%d)%s = %s, expected %s' % (args, y, tag, g, w)) if not (type(w) is int and w >= M63) else None
            w, g = want.count(y), attempt(lambda: got.count(y)); rep.check(w == g, 'count' + xc, 'range%s.count(%d)%s = %s, expected %s' % (args, y, tag, g, w))
        if n is not None and n < 1 << 40:
            far = max(abs(A), abs(B)) + 2 * abs(S) >= M63
            w, g = head(reversed(want)), attempt(lambda: head(got.__reversed__())); rep.check(w == g, 'reversed' + (':extreme span' if x or far else ''), 'reversed(range%s)%s visits %s, expected %s' % (args, tag, g, w))
            sl = tuple(None if r.random() < .3 else v() for _ in range(3)); w = attempt(lambda: head(iter(want[slice(*sl)]))); g = attempt(lambda: head(got[L.slice(*sl)].__iter__()))
            big = far or abs(S * (sl[2] or 1)) >= M63; rep.check(w == g, 'slice' + (':overflowing step' if x or big else ''), 'range%s[%s]%s visits %s, expected %s' % (args, ':'.join('' if q is None else str(q) for q in sl), tag, g, w))
def probed(xs):
    r = 0
    for x in xs: r = (r * 1000003 + x + 7) % (1 << 64)
    return r
def f_loops(rep):
    if STATE.get('rc'): rep.fail('lower', 'lowering or translating the loops ended with code %s: %s' % (STATE['rc'], STATE['err'])); return
    if 'run' not in STATE: raise Unsupported(STATE.get('why', 'not built'))
    for n, k in STATE['out'].items():
        zero = n.startswith('r3_') and STEPS[int(n.split('_')[1])] == 0
        rep.check(not (zero or n == 'rv') or k == 'kept', 'lower:' + n, 'a loop over range() with %s step is turned into a counted loop' % ('a zero' if zero else 'an unknown'))
    E = [0, 1, -1, 2, 3, -3, 5, 10, -10, 21, 25, M63 - 1, -M63, M63 - 3, 3 - M63, 1 << 31, -(1 << 31), 1 << 62]; cs = []
    for n in STATE['fn']:
        mt = re.match(r'r(\d)_(?:(\d+)_)?(\d)$', n)
        if not mt or STATE['out'].get(n) != 'lowered': continue
        s = STEPS[int(mt.group(2))] if mt.group(2) else 1; cs += [(n, int(mt.group(1)), s, int(mt.group(3)), a, b) for a in E for b in E if mt.group(3) != "1" or s % 3 or max(a, b) - min(a, b) < 10 ** 6 and abs(b) < 1 << 40]
    # with one parameter the C caller passes the stop value first
    p = subprocess.run([STATE['run']], input=''.join('%s %d %d\n' % ((n, b, 0) if na == 1 else (n, a, b)) for n, na, s, k, a, b in cs), capture_output=True, text=True, timeout=300)
    for (n, na, s, k, a, b), g in zip(cs, p.stdout.split('\n')):
        R = range(0 if na == 1 else a, b, s); w = []; full = True
        for x in R:
            if k == 1:
                if int(x) - 3 * int(abs(x) // 3) * (1 if x >= 0 else -1) == 0: continue
                if x == 20: break
            w.append(x)
            if len(w) == 40: full = False; break
            if len(w) > 60: break
        wt = ''.join(' %d' % x for x in w) + (' .' if full else ' ...') + ' %d' % (probed([b] if na == 1 else [a, b]) if k == 1 else 0)
        rep.check(g == wt, 'loop:wraps' if R and R[-1] + s not in range(-M63, M63) else 'loop:' + n, 'loop over range(%s) with body %d shows%s, expected%s' % (', '.join(map(str, ((b,), (a, b), (a, b, s))[na - 1])), k, g[:200], wt[:200]))
def finders(tier): return [T('library/%d' % i, f_lib, (i,), timeout=600) for i in range(2)] + [T('counted loops', f_loops, timeout=300)]
