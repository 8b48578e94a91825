"""C04: indexing and slicing follow Python for every index, bound and step (stdlib slice/list/str/tuple, typecheck/op.cpp)."""
import os, re, random, subprocess
import z3
import core, cfe, cstd, llbuild, llparse, llvc
from core import Unsupported
from cfe import Loop, Mem, Ptr, UB
from llvc import Hooks, Exec
from check import T
PROP = 'C04'; LEVEL = 'proof'
TECHNIQUE = 'deductive verification: contracts on the slice, list, string and tuple indexing functions of the library (extracted on every run) and on LLVM IR of translateIndex/sliceAdjustIndices, discharged by SMT'
NOTE = ('For every length and every start, stop and step, present or absent: the adjusted bounds and the element count are the ones of the Python reference, no intermediate value overflows, and list and string indexing and slicing '
        'select exactly these elements inside the storage. Compile-time bounds: the two C++ functions for all 64-bit operands; the function around them runs natively with its own text, compiled against stand-ins for the syntax tree (bounded).')
ASSUMPTIONS = ['lengths are below 2^62 (memory)', 'range() visits exactly the arithmetic progression (C05)', 'contracts of List.append and str.memcpy', 'strings are sequences of bytes, as in the library']
TRUSTED = ['clang 18', 'dv/llparse.py, dv/llvc.py (IR semantics)', 'dv/cparse.py, dv/cfe.py (extraction and semantics of the Codon subset)', 'dv/cstd.py (memory primitives)', 'z3', 'cvc5']
EXPLANATION = 'functions are read from /repo on every run; see DESIGN.md section 2'
BUDGET = {'quick': 300, 'thorough': 1500}
HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
SRC = 'codon/parser/visitors/typecheck/op.cpp'
STATE = {}
M63 = 1 << 63
I = z3.IntSort(); ARR = z3.ArraySort(I, I); k, j = z3.Ints('k j')
def sel(a, i): return z3.Select(a, i)
def setup(tmp, tier):
    STATE['tup'] = build_tuple(tmp); STATE['m'] = llparse.Module(open(llbuild.compile_ll(os.path.join(llbuild.REPO, SRC), tmp, o1=False)).read()); return STATE
def body(txt, name):
    m = re.search(r'^[^\n;]*\n?TypecheckVisitor::%s\(|^[^\n;{}]* TypecheckVisitor::%s\(' % (name, name), txt, re.M)
    if not m: return None
    i = txt.index('{', txt.index(')', m.end())); d = 0
    for e in range(i, len(txt)):
        d += (txt[e] == '{') - (txt[e] == '}')
        if d == 0: return txt[m.start():e + 1]
def build_tuple(tmp):
    """the text of the three functions, compiled against stand-ins for the syntax tree that record the fields selected"""
    txt = open(os.path.join(llbuild.REPO, SRC)).read(); fs = [body(txt, n) for n in ('translateIndex', 'sliceAdjustIndices', 'transformStaticTupleIndex')]
    if None in fs: return None
    # helpers of the same file that these functions call are added as the compiler asks for them
    def helper(n):
        f = body(txt, n)
        if f: return '', f, re.sub(r'\bTypecheckVisitor::', '', f[:f.index('{')]).strip() + ';\n'
        m = re.search(r'^(?:static |inline |constexpr |template[^\n]*\n)*[\w:<>,&* ]+\b%s\(' % n, txt, re.M)
        if not m: return None
        i = txt.index('{', m.end()); d = 0
        for e in range(i, len(txt)):
            d += (txt[e] == '{') - (txt[e] == '}')
            if d == 0: return txt[m.start():e + 1] + '\n', '', ''
    free, mem, decl, seen = '', '', '', set(); src = open(os.path.join(HARN, 'tuple_slice.cpp')).read(); s = os.path.join(tmp, 'tuple_slice.cpp')
    for _ in range(6):
        open(s, 'w').write(src.replace('struct TypecheckVisitor {', free + 'struct TypecheckVisitor {\n' + decl, 1).replace('/*FUNCTIONS*/', mem + '\n'.join(fs)))
        p = subprocess.run(['clang++-18', '-std=c++20', '-O0', '-fsanitize=signed-integer-overflow,bounds', '-fno-sanitize-recover=all', '-w', s, '-o', os.path.join(tmp, 'tup')], capture_output=True, text=True)
        if not p.returncode: break
        need = set(re.findall(r"use of undeclared identifier '(\w+)'|no member named '(\w+)' in 'TypecheckVisitor'", p.stderr)); need = {x or y for x, y in need} - seen; h = [helper(n) for n in need]; seen |= need
        if not any(h): STATE['tupwhy'] = p.stderr[-800:]; return None
        for f in h:
            if f: free += f[0]; mem += f[1] + '\n'; decl += f[2]
    else: return None
    return os.path.join(tmp, 'tup')
# ---- specification ----
def bounds(n, a, b, s):
    """Python's bounds for a sequence of length n (language reference), mathematical integers; None is an absent bound -> (start, stop)"""
    If = z3.If; pos = s > 0
    lo, hi = If(pos, 0, -1), If(pos, n, n - 1)
    def clamp(x): y = If(x < 0, x + n, x); return If(y < lo, lo, If(y > hi, hi, y))
    return (clamp(a) if a is not None else If(pos, 0, n - 1)), (clamp(b) if b is not None else If(pos, n, -1))
def count_ok(a, b, s, c):
    """c is the number of elements a, a+s, ... before b"""
    pos = s > 0; span = z3.If(pos, b - a, a - b); m = z3.If(pos, s, -s)
    return z3.If(span <= 0, c == 0, z3.And(c >= 1, (c - 1) * m < span, span <= c * m))
def opt(ctx, nm, given):
    if not given: return None
    v = ctx.fresh_int(nm); ctx.assume(cfe.inr(v)); ctx.input(nm, v); return v
def p_adjust(task, py, given):
    L = cstd.core_env(); task.functions |= {u for u in L.used if 'Slice.adjust' in u}
    def go(ctx):
        n = ctx.fresh_int('length'); ctx.assume(z3.And(n >= 0, n < 1 << 62)); ctx.input('length', n)
        a, b, s = (opt(ctx, nm, g) for nm, g in zip(('start', 'stop', 'step'), given))
        cfe.use(cfe.RT(ctx, py=py, exact=True)).who = 'Slice.adjust_indices'; w = 'Slice.adjust_indices'
        S = z3.IntVal(1) if s is None else s
        try: r = L.slice(a, b, s).adjust_indices(n)
        except ValueError: ctx.prove(S == 0, 'an error is raised only for a zero step', w); ctx.cover('raises'); return
        r = [z3.IntVal(x) if type(x) is int else x for x in r]
        ctx.prove(S != 0, 'a zero step is rejected', w); x, y = bounds(n, a, b, S)
        ctx.prove(z3.And(r[0] == x, r[1] == y), 'the bounds are the ones of the reference', w)
        ctx.prove(r[2] == z3.If(S == -M63, 1 - M63, S), 'the step is unchanged (-2^63 becomes -2^63+1, which selects the same elements and can be negated)', w)
        ctx.prove(count_ok(x, y, r[2], r[3]), 'the count is the number of selected elements', w); ctx.cover('returns')
    core.explore(task, go)
def append_contract(s, v):
    """contract of List.append (C12): one more element, room provided"""
    m = s.arr.ptr.m; m.n = z3.If(m.n > s.len, m.n, s.len + 1); m.store(s.len, v); s.len = s.len + 1
def p_index(task, what, py):
    L = cstd.core_env()
    def go(ctx):
        w = 'List.' + what; cfe.use(cfe.RT(ctx, py=py, exact=True)).who = w
        l = cstd.symlist(L, ctx, 'a'); n = l.len; A = l.arr.ptr.m.arr; i = opt(ctx, 'index', True); v = ctx.fresh_int('v'); ctx.assume(cfe.inr(v))
        task.functions.add('internal/types/collections/list.codon:List.' + what)
        try: r = l[i] if what == '__getitem__' else l.__setitem__(i, v)
        except IndexError: ctx.prove(z3.Or(i >= n, i < -n), 'an error is raised only for an index out of range', w); ctx.prove(l.arr.ptr.m.arr == A, 'a rejected index changes nothing', w); ctx.cover('raises'); return
        ctx.prove(z3.And(i < n, i >= -n), 'an index out of range is rejected', w); q = z3.If(i < 0, i + n, i)
        if what == '__getitem__': ctx.prove(r == sel(A, q), 'the element at the index is selected', w)
        else: ctx.prove(l.arr.ptr.m.arr == z3.Store(A, q, v), 'the element at the index is replaced and nothing else', w); ctx.prove(l.len == n, 'the length is kept', w)
        ctx.cover('returns')
    core.explore(task, go)
def adjust_contract(ctx, L, n, a, b, s):
    """contract of Slice.adjust_indices, proved by p_adjust"""
    S = z3.IntVal(1) if s is None else s
    def f(self, length):
        cfe.prove(length == n, 'bounds are adjusted to the length of the sequence')
        if cfe.t(S == 0): raise ValueError()
        x, y = bounds(n, a, b, S); X, Y, c, st = (ctx.fresh_int(q) for q in ('xstart', 'xstop', 'count', 'xstep')); ctx.assume(z3.And(X == x, Y == y, count_ok(x, y, st, c), st == z3.If(S == -M63, 1 - M63, S))); ctx.extra['adj'] = (X, Y, st, c)
        ctx.assume(z3.And(c >= 0, c <= n)); return X, Y, st, c
    return f
def strenv():
    L = cstd.core_env(); ns = L.env['str']
    class S(type(ns)):
        def __call__(s, p='', n=None): return L.Str(p, n) if isinstance(p, Ptr) else p
    st = L.cls('internal/str.codon', 'str', only=('__getitem__', '_make_from_range', '__copy__', '__mul__', '_cmp', '__lt__', '__le__', '__gt__', '__ge__', '__eq__'), as_='str_')
    cl = type(st)('str', (st,), {'is_str': True, '__len__': lambda s: s.len, '__copy__': lambda s: L.Str(Ptr(Mem(s.len, None, s.ptr.m.arr)) if s.ptr.m.cells is None else Ptr(Mem(s.len, s.ptr.m.cells[s.ptr.o:s.ptr.o + s.len])), s.len)})
    L.Str = lambda p, n: cfe.mkraw(cl, {'ptr': p, 'len': n}); L.env['str'] = S(); return L
def progression(arr, base, src, x, st, c, A):
    """element k of the result is element x + k*st of the source, for k < c"""
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), sel(arr, k + base) == sel(A, x + k * st)), patterns=[sel(arr, k + base)]) if not (type(base) is int and base == 0) else z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), sel(arr, k) == sel(A, x + k * st)), patterns=[sel(arr, k)])
def p_slice(task, kind, given):
    L = cstd.core_env() if kind == 'List' else strenv()
    def go(ctx):
        w = kind + '.__getitem__(slice)'
        l = cstd.symlist(L, ctx, 'a')
        if kind == 'str': l = L.Str(l.arr.ptr, l.len)
        n = l.len; m = (l.arr.ptr if kind == 'List' else l.ptr).m; A = m.arr
        a, b, s = (opt(ctx, nm, g) for nm, g in zip(('start', 'stop', 'step'), given))
        cls = L.env['Slice']; sl = L.slice(a, b, s); sl.__class__ = type('Slice', (cls,), {'adjust_indices': adjust_contract(ctx, L, n, a, b, s)})
        task.functions.add('internal/types/collections/list.codon:List.__getitem__' if kind == 'List' else 'internal/str.codon:str.__getitem__')
        def pos(l_):
            X, Y, st, c = ctx.extra['adj']; i = l_.it.i; return X, Y, st, c, i
        def inv(l_):
            X, Y, st, c, i = pos(l_)
            if kind == 'List': d, arr, room = l_.other.len, l_.other.arr.ptr.m.arr, l_.other.arr.ptr.m.n
            else: d, arr, room = l_.j, l_.p.m.arr, l_.p.m.n
            if type(d) is int: d = z3.IntVal(d)
            return {'count': z3.And(0 <= d, d <= c), 'room': room >= c, 'next index': z3.And(i == X + d * st, z3.If(st > 0, i >= X, i <= X), z3.Implies(st > 0, (i < Y) == (d < c)), z3.Implies(st < 0, (i > Y) == (d < c))), 'elements': progression(arr, 0, None, X, st, d, A)}
        def lemma(o, l_):
            # multiplication facts for the count: with d < c steps taken, one more step passes the stop value exactly when d + 1 = c
            X, Y, st, c, i = pos(l_); d = (l_.other.len if kind == 'List' else l_.j); e = c - d
            return [z3.Implies(z3.And(st >= 1, e >= 1), e * st >= st), z3.Implies(z3.And(st <= -1, e >= 1), e * st <= st), (d * st) + (e * st) == c * st, d * st == (d - 1) * st + st, (c - 1) * st == c * st - st, z3.Implies(z3.And(st >= 1, e <= 0), e * st <= 0), z3.Implies(z3.And(st <= -1, e <= 0), e * st >= 0)]
        mods = (lambda l_: [l_.other.arr.ptr.m, LenOf(l_.other)]) if kind == 'List' else (lambda l_: [l_.p.m])
        loops = {(q, 0): Loop(inv, lambda l_: pos(l_)[3] - (l_.other.len if kind == 'List' else l_.j), mods=mods, lemma=lemma, snap=lambda l_: 0) for q in ('List.__getitem__', 'str._make_from_range', 'str.__getitem__')}
        cfe.use(cfe.RT(ctx, loops=loops, exact=True)).who = w
        if kind == 'List': L.List.append = append_contract
        try: r = l[sl]
        except ValueError: ctx.prove(s == 0 if s is not None else False, 'an error is raised only for a zero step', w); ctx.cover('raises'); return
        if s is not None: ctx.prove(s != 0, 'a zero step is rejected', w)
        B = (r.arr.ptr if kind == 'List' else r.ptr); ln = r.len if cfe.sym(r.len) else z3.IntVal(r.len)
        S = z3.IntVal(1) if s is None else s; x, y = bounds(n, a, b, S)
        if 'adj' in ctx.extra: X, Y, st, c = ctx.extra['adj']
        else: X, st, c = z3.IntVal(0), z3.IntVal(1), n
        ctx.prove(ln == c, 'as many elements as Python selects', w); q = ctx.fresh_int('q')
        if B.m is None: ctx.prove(c == 0, 'an empty block only for an empty slice', w); return
        o = B.o if cfe.sym(B.o) else z3.IntVal(B.o); ctx.prove(z3.Implies(c > 0, z3.And(o >= 0, o + c <= B.m.n)), 'the result lies inside its block', w)
        t_ = z3.Implies(z3.And(0 <= q, q < c), sel(B.m.arr, o + q) == sel(A, X + q * st))
        ctx.prove(t_, 'every element is the one Python selects', w); ctx.prove(m.arr == A, 'the sequence itself is unchanged', w)
        if kind == 'List': ctx.prove(B.m is not m, 'the result has its own storage', w)
        ctx.cover('returns')
    core.explore(task, go)
class LenOf:
    def __init__(s, l): s.l = l
    def havoc(s, ctx): s.l.len = ctx.fresh_int('h_len'); m = s.l.arr.ptr.m; m.n = ctx.fresh_int('h_cap')
def p_stridx(task, py):
    L = strenv()
    def go(ctx):
        w = 'str.__getitem__'; cfe.use(cfe.RT(ctx, py=py, exact=True)).who = w; task.functions.add('internal/str.codon:str.__getitem__')
        l = cstd.symlist(L, ctx, 'a'); n = l.len; p = l.arr.ptr; s = L.Str(p, n); i = opt(ctx, 'index', True)
        try: r = s[i]
        except IndexError: ctx.prove(z3.Or(i >= n, i < -n), 'an error is raised only for an index out of range', w); ctx.cover('raises'); return
        ctx.prove(z3.And(i < n, i >= -n), 'an index out of range is rejected', w); ctx.prove(z3.And(r.ptr.o == z3.If(i < 0, i + n, i), r.len == 1), 'the character at the index is selected', w); ctx.prove(r.ptr.m is p.m, 'the character comes from the string', w); ctx.cover('returns')
    core.explore(task, go)
def p_tuple(task, py):
    L = cstd.core_env(); L.cls('internal/types/tuple.codon', 'Tuple', only=('_fix_index',)); task.functions |= {u for u in L.used if '_fix_index' in u}
    def go(ctx):
        w = 'Tuple._fix_index'; cfe.use(cfe.RT(ctx, py=py, exact=True)).who = w; i = opt(ctx, 'index', True); n = ctx.fresh_int('n'); ctx.assume(z3.And(n >= 0, n < 1 << 32)); ctx.input('length', n)
        try: r = L.env['Tuple']._fix_index(i, n)
        except IndexError: ctx.prove(z3.Or(i >= n, i < -n), 'an error is raised only for an index out of range', w); ctx.cover('raises'); return
        ctx.prove(z3.And(i < n, i >= -n), 'an index out of range is rejected', w); ctx.prove(r == z3.If(i < 0, i + n, i), 'negative indices count from the end', w); ctx.cover('returns')
    core.explore(task, go)
# ---- the compiler's own bound arithmetic ----
def cfn(pat):
    m = STATE['m']; r = [f for f in m.funcs.values() if not f.is_decl and re.match(pat, m.demangled.get(f.name, f.name))]
    if len(r) != 1: raise Unsupported('function %s: %d candidates' % (pat, len(r)))
    return r[0]
def world(ctx):
    hk = Hooks(); ex = Exec([STATE['m']], ctx, hooks=hk)
    def err(ex, a, n): raise llvc.CxxThrow('error')
    hk.on(r'void codon::ast::E<|void codon::error::E<|codon::ast::E<|codon::error::E<|.*Visitor::E\(', err)
    hk.on(r'codon::SrcInfo::~SrcInfo|codon::SrcObject::getSrcInfo|.*Context<.*>::getSrcInfo|.*::getSrcInfo\(', lambda ex, a, n: None)
    return ex, llvc.Ptr(ex.mem.alloc(4096, 'visitor'), 0)
def bvspec(n, a, b, s):
    """the same reference in 64-bit arithmetic (no overflow for 0 <= n < 2^62)"""
    If = z3.If; pos = s > 0; V = lambda x: z3.BitVecVal(x, 64); lo, hi = If(pos, V(0), V(-1)), If(pos, n, n - 1)
    def clamp(x): y = If(x < 0, x + n, x); return If(y < lo, lo, If(y > hi, hi, y))
    return clamp(a), clamp(b)
DIV = z3.Function('sdiv', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
def p_cadjust(task):
    f = cfn(r'codon::ast::TypecheckVisitor::sliceAdjustIndices\('); task.functions.add('codon::ast::TypecheckVisitor::sliceAdjustIndices')
    def go(ctx):
        ex, this = world(ctx); calls = []
        def div(p, q): calls.append((p, q)); ctx.assume(z3.Implies(z3.And(p >= 0, q > 0), z3.And(DIV(p, q) >= 0, DIV(p, q) <= p, z3.Implies(p < q, DIV(p, q) == 0)))); return DIV(p, q)
        ex.divfn = div                              # the quotient itself is the hardware's
        n, a, b, s = (ctx.input(q, ctx.fresh_bv(q, 64)) for q in ('length', 'start', 'stop', 'step')); ctx.assume(z3.And(n >= 0, n < 1 << 62))
        ctx.branch(s > 0)                          # case split, to keep the terms small
        for q in (a, b): ctx.branch(q + n < 0) if ctx.branch(q < 0) else ctx.branch(q >= n)
        pa, pb = (llvc.Ptr(ex.mem.alloc(8, q), 0) for q in ('start', 'stop')); ex.store_raw(pa, 8, a); ex.store_raw(pb, 8, b)
        try: r = ex.run(f, [this, n, pa, pb, s])
        except llvc.CxxThrow: ctx.prove(s == 0, 'an error is reported only for a zero step'); ctx.cover('error'); return
        if ctx.branch(s == 0): ctx.prove(False, 'a zero step is an error'); return
        x, y = bvspec(n, a, b, s); ra, rb, r = (llvc.bv(q, 64) for q in (ex.load_raw(pa, 8), ex.load_raw(pb, 8), r))
        ctx.prove(z3.And(ra == x, rb == y), 'the bounds are the ones of the reference')
        span = z3.If(s > 0, rb - ra, ra - rb)
        if ctx.branch(span <= 0): ctx.prove(r == 0, 'an empty selection has count 0'); return
        m = s if ctx.branch(s > 0) else -s
        if ctx.branch(s == -M63): ctx.prove(r == 1, 'the count is the number of selected elements'); return
        if len(calls) != 1 or ctx.possible(z3.Or(calls[0][0] != span - 1, calls[0][1] != m)): raise Unsupported('the count is not computed as (span - 1) / step + 1')
        ctx.prove(r == DIV(*calls[0]) + 1, 'the count is the number of selected elements'); ctx.cover('returns')
    core.explore(task, go)
def p_ctrans(task, clamp):
    f = cfn(r'codon::ast::TypecheckVisitor::translateIndex\('); task.functions.add('codon::ast::TypecheckVisitor::translateIndex')
    def go(ctx):
        ex, this = world(ctx); i, n = (ctx.input(q, ctx.fresh_bv(q, 64)) for q in ('index', 'length')); ctx.assume(z3.And(n >= 0, n < 1 << 62)); y = z3.If(i < 0, i + n, i)
        try: r = ex.run(f, [this, i, n, clamp])
        except llvc.CxxThrow: ctx.prove(z3.And(z3.BoolVal(not clamp), z3.Or(i >= n, i < -n)), 'an error is reported only for an index out of range'); ctx.cover('error'); return
        if clamp: ctx.prove(r == z3.If(y < 0, 0, z3.If(y > n, n, y)), 'the index is clamped to the sequence')
        else: ctx.prove(z3.And(i < n, i >= -n), 'an index out of range is an error'); ctx.prove(r == y, 'negative indices count from the end')
        ctx.cover('returns')
    core.explore(task, go)
def tasks(tier):
    G = [(a, b, s) for a in (0, 1) for b in (0, 1) for s in (0, 1)]; nm = lambda g: ''.join(x if y else '-' for x, y in zip(('start', 'stop', 'step'), g))
    out = [T('adjust_indices %s%s' % (nm(g), ' python numerics' if py else ''), p_adjust, (py, g), unit='Slice.adjust_indices') for g in G for py in (False, True)]
    out += [T('List.%s%s' % (w, ' py' if py else ''), p_index, (w, py), unit='List.' + w) for w in ('__getitem__', '__setitem__') for py in (False, True)]
    out += [T('%s slice %s' % (kd, nm(g)), p_slice, (kd, g), unit=kd + ' slice', smt_ms=60000) for kd in ('List', 'str') for g in G]
    out += [T('str index%s' % (' py' if py else ''), p_stridx, (py,), unit='str.__getitem__') for py in (False, True)] + [T('Tuple._fix_index%s' % (' py' if py else ''), p_tuple, (py,), unit='Tuple._fix_index') for py in (False, True)]
    return out + [T('sliceAdjustIndices', p_cadjust, (), unit='sliceAdjustIndices', smt_ms=60000)] + [T('translateIndex clamp=%d' % c, p_ctrans, (c,), unit='translateIndex') for c in (0, 1)]
# ---- concrete ----
EDGE = [0, 1, -1, 2, -2, 3, -3, 4, 5, -5, 7, -7, 8, -8, 100, -100, M63 - 1, M63 - 2, -M63, 1 - M63, 1 << 62, -(1 << 62)]
def attempt(f):
    cfe.CUR.budget = 100000
    try: return f()
    except UB as e: return 'undefined behaviour: %s' % e
    except (IndexError, ValueError, ZeroDivisionError, AssertionError) as e: return type(e).__name__
def pick(r):
    x = r.random(); return None if x < .2 else r.choice(EDGE) if x < .6 else r.randrange(-12, 13)
def show(a, b, s): return ':'.join('' if v is None else str(v) for v in (a, b, s))
def f_lib(rep, part):
    L = strenv(); L.cls('internal/types/tuple.codon', 'Tuple', only=('_fix_index',)); r = random.Random(rep.seed * 31 + part)
    Ls = cstd.core_env()
    for it in range(6000 if rep.tier == 'quick' else 100000):
        py = r.random() < .5; cfe.use(cfe.RT(py=py)); n = r.randrange(0, 9); xs = list(range(n)); a, b, s = pick(r), pick(r), pick(r); tag = ' (python numerics)' if py else ''
        N = r.choice((n, n, 1 << 20, (1 << 61) + 5)); want = attempt(lambda: (lambda q: q.indices(N) + (len(range(*q.indices(N))),))(slice(a, b, s))); got = attempt(lambda: tuple(Ls.slice(a, b, s).adjust_indices(N)))
        if s == -M63 and type(got) is tuple and type(want) is tuple: want, got = want[:2] + want[3:], got[:2] + got[3:]
        rep.check(got == want, 'adjust_indices', 'slice(%s, %s, %s) on length %d%s gives %s, expected %s' % (a, b, s, N, tag, got, want))
        want = attempt(lambda: xs[a:b:s]); l = cstd.mklist(Ls, xs, r.randrange(3)); got = attempt(lambda: cstd.pylist(l[Ls.slice(a, b, s)])); rep.check(got == want, 'List slice', '%s[%s]%s gives %s, expected %s' % (xs, show(a, b, s), tag, got, want))
        st = L.Str(Ptr(Mem(n, list(xs))), n); got = attempt(lambda: (lambda q: [q.ptr[i] for i in range(cfe.concrete(q.len))])(st[L.slice(a, b, s)])); rep.check(got == want, 'str slice', 'string of %d bytes [%s]%s selects %s, expected %s' % (n, show(a, b, s), tag, got, want))
        i = r.choice(EDGE) if r.random() < .3 else r.randrange(-11, 11); want = attempt(lambda: xs[i])
        for nm, f in (('List index', lambda: l[i]), ('str index', lambda: (lambda q: q.ptr[0] if q.len == 1 else 'length %s' % q.len)(st[i])), ('tuple index', lambda: L.env['Tuple']._fix_index(i, n))):
            got = attempt(f); rep.check(got == want, nm, 'index %d of a sequence of length %d%s gives %s, expected %s' % (i, n, tag, got, want))
        l2 = cstd.mklist(Ls, xs); w2 = list(xs)
        def seti(): w2[i] = 99
        e1, e2 = attempt(seti), attempt(lambda: l2.__setitem__(i, 99)); rep.check(e1 == e2 and cstd.pylist(l2) == w2, 'List set', 'assignment at %d of a list of %d%s: %s %s, expected %s %s' % (i, n, tag, e2, cstd.pylist(l2), e1, w2))
def ranged(r, n):
    E = [None] + EDGE; out = [(m, a, b, s) for m in (0, 1, 3) for a in E for b in E for s in E if s != 0][:: 3 if n < 10000 else 1]
    return out + [(r.randrange(0, 9), pick(r), pick(r), pick(r)) for _ in range(n)]
def f_cc(rep, up, what):
    if not STATE.get('tup'): raise Unsupported('the functions do not compile outside the compiler: ' + STATE.get('tupwhy', 'not found'))
    r = random.Random(rep.seed); cs = ranged(r, 3000 if rep.tier == 'quick' else 60000); ix = [(m, i) for m in (0, 1, 2, 5) for i in EDGE]
    f = lambda v: '-' if v is None else str(v)
    S_, I_ = 'SI' if up else 'si'; inp = ''.join('%s %d %s %s %s\n' % (S_, m, f(a), f(b), f(s)) for m, a, b, s in cs) + ''.join('%s %d %d\n' % (I_, *c) for c in ix)
    p = subprocess.run([STATE['tup']], input=inp, capture_output=True, text=True, timeout=600); out = p.stdout.split('\n')
    def wanted(c):
        xs = ''.join(chr(97 + q) for q in range(c[0]))
        try: return 'ok ' + (xs[c[1]] if len(c) == 2 else xs[c[1]:c[2]:c[3]])
        except (IndexError, ValueError): return 'error'
    for c, g in zip(cs + ix, out):
        if g == '': continue                    # the driver stops after six crashes
        w = wanted(c); rep.check(g.strip() == w.strip(), what, '%s of length %d [%s] gives %s, expected %s' % (what, c[0], show(*c[1:]) if len(c) == 4 else c[1], g, w))
def finders(tier): return [T('library/%d' % i, f_lib, (i,), timeout=600) for i in range(3)] + [T('static string', f_cc, (True, 'compile-time string')), T('static tuple', f_cc, (False, 'compile-time tuple'))]
