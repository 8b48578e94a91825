"""C12: list operations leave exactly the contents Python would (stdlib list.codon)."""
import os, sys, random, itertools
import z3
import core, cfe, cstd, llbuild
from check import T
from core import Unsupported
from cfe import Loop, Mem, Ptr, UB
PROP = 'C12'; LEVEL = 'proof'
TECHNIQUE = 'Contracts on every method of List, read from stdlib/internal/types/collections/list.codon on every run: element-wise postconditions for lists of any length and capacity, loop invariants on every loop, every access proved inside its block; discharged by z3/cvc5; plus concrete operation histories of the same text against Python lists'
NOTE = ''
ASSUMPTIONS = ['list lengths are below 2^58', 'elements are compared by a total equality (order: a total order)', 'gc.realloc keeps the first min(old, new) elements and releases the old block', 'slice.adjust_indices satisfies its contract (proved by C04)']
TRUSTED = ['dv/cparse.py, dv/cfe.py, dv/cstd.py (extraction and semantics of the Codon subset)', 'z3', 'cvc5']
EXPLANATION = 'functions are read from /repo on every run; see DESIGN.md section 2'
BUDGET = {'quick': 300, 'thorough': 1500}
M63 = 1 << 63

I = z3.IntVal
def num(v): return I(v) if type(v) is int else v
def sel(a, i): return z3.Select(a, i)
k = z3.Int('k')
def fa(arr, lo, hi, f, base=0):
    """element k of arr is f(k) for lo <= k < hi"""
    return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), sel(arr, k) == f(k)), patterns=[sel(arr, k)])
def none(arr, lo, hi, x): return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), sel(arr, k) != x), patterns=[sel(arr, k)])
class ListIter(cfe.PyIter):
    """contract of List.__iter__ (its own task): element i of the list as it is then, while i is below the first length and the present one"""
    def __init__(s, l): s.l = l; s.N = l.len; s.rng = type('R', (), {'stop': l.len, 'step': 1}); s.i = 0; s.buf = []
    def more(s): return cfe.cmp('<', s.i, s.N) if s.l.len is s.N else z3.And(num(s.i) < s.N, num(s.i) < s.l.len)
    def next(s): v = s.l._get(s.i); s.i = s.i + 1; return v
class Store:
    """what an operation may change of a list: length and storage"""
    def __init__(s, l, cap=None): s.l = l; s.cap = cap
    def havoc(s, ctx):
        l = s.l; l.len = ctx.fresh_int('h_len'); c = ctx.fresh_int('h_cap'); ctx.assume(z3.And(l.len >= 0, l.len <= c, c < 1 << 60)); l.arr = type(l.arr)(Ptr(Mem.sym(ctx, 'h_mem', c)), c)
class Arr:
    def __init__(s, l): s.l = l
    def havoc(s, ctx): s.l.arr.ptr.m.havoc(ctx)
def mem(l): return l.arr.ptr.m
def arr(l): return l.arr.ptr.m.arr
def wf(l): return z3.And(num(l.len) >= 0, num(l.len) <= num(l.arr.len), num(l.arr.len) == num(mem(l).n) if mem(l) is not None else num(l.arr.len) == 0, num(l.arr.ptr.o) == 0)
class P:
    """one proof: environment, a list of any length, postconditions"""
    def __init__(s, task, who, loops=None, py=False, contracts=True, exact=True):
        s.exact = exact; s.task = task; s.w = 'List.' + who; s.L = cstd.core_env(); s.loops = loops or {}; s.py = py
        task.functions.add('internal/types/collections/list.codon:' + s.w)
        if contracts: s.L.List.iter_contract = ListIter
    def run(s, go):
        def f(ctx):
            cfe.use(cfe.RT(ctx, py=s.py, loops={}, exact=s.exact)).who = s.w; cfe.CUR.symmem = True; s.ctx = ctx; s.l = l = cstd.symlist(s.L, ctx, 'a'); s.n = l.len; s.A = arr(l); s.x = ctx.input('x', ctx.fresh_int('x')); s.q = ctx.fresh_int('q'); go(s, ctx, l)
        core.explore(s.task, f)
    def other(s, nm='b'):
        o = cstd.symlist(s.L, s.ctx, nm); return o
    def spec(s, key, *a, **kw): cfe.CUR.loops[key] = Loop(*a, **kw)
    def index(s): g = s.ctx.fresh_int('index'); s.ctx.assume(cfe.inr(g)); s.ctx.input('index', g); return g
    def post(s, l, n, f, what='the list', at=None):
        n = num(n); s.ctx.prove(wf(l), what + ' stays well formed', s.w); s.ctx.prove(num(l.len) == n, what + ' has the length Python gives', s.w)
        q = s.q if at is None else at
        if mem(l) is None: s.ctx.prove(n == 0, what + ' has storage', s.w); return
        s.ctx.prove(z3.Implies(z3.And(0 <= q, q < n), sel(arr(l), q) == f(q)), 'every element of %s is the one Python gives' % what, s.w)
    def same(s, l=None): s.post(l or s.l, s.n, lambda q: sel(s.A, q), 'the unchanged list')
    def new(s, r): s.ctx.prove(z3.And(r is not s.l, mem(r) is not mem(s.l)), 'the result has its own storage', s.w)
    def done(s, what='returns'): s.ctx.cover(what)
def If(c, a, b): return z3.If(c, num(a), num(b))
# ---- simple operations ----
def p_simple(task, op):
    def go(s, ctx, l):
        n, A, x, el = s.n, s.A, s.x, lambda q: sel(s.A, q)
        if op == 'append': l.append(x); s.post(l, n + 1, lambda q: If(q == n, x, el(q)))
        elif op == 'clear': l.clear(); s.post(l, 0, el)
        elif op == '__len__': ctx.prove(num(l.__len__()) == n, 'the length', s.w); s.same()
        elif op == '__bool__': ctx.prove(z3.BoolVal(cfe.t(l.__bool__())) == (n > 0), 'truth is non-emptiness', s.w); s.same()
        elif op == '__init__':
            c = s.index(); ctx.assume(c < 1 << 58); r = s.L.List(c); s.post(r, 0, el); ctx.prove(z3.Implies(c >= 0, num(r.arr.len) >= c), 'the requested capacity is there', s.w); r = s.L.List(); s.post(r, 0, el)
        elif op in ('__getitem__', '__setitem__', '__delitem__', 'pop'):
            g = s.index() if op != 'pop' or ctx.choose(2) else None; G = g if g is not None else I(-1); p = If(G < 0, G + n, G); cut(s, 'List.__delitem__', l, p)
            try: r = l.__getitem__(g) if op == '__getitem__' else l.__setitem__(g, x) if op == '__setitem__' else l.__delitem__(g) if op == '__delitem__' else l.pop(g) if g is not None else l.pop()
            except IndexError: ctx.prove(z3.Or(G >= n, G < -n), 'an error is raised only for an index out of range', s.w); s.same(); s.done('raises'); return
            ctx.prove(z3.And(G < n, G >= -n), 'an index out of range is rejected', s.w)
            if op == '__getitem__': ctx.prove(r == el(p), 'the element at the index', s.w); s.same()
            elif op == '__setitem__': s.post(l, n, lambda q: If(q == p, x, el(q)))
            else:
                s.post(l, n - 1, lambda q: If(q < p, el(q), el(q + 1)))
                if op == 'pop': ctx.prove(r == el(p), 'the removed element is returned', s.w)
        elif op in ('copy', '__copy__'): r = getattr(l, op)(); s.post(r, n, el, 'the copy'); s.new(r); s.same()
        elif op in ('__add__', '__iadd__'):
            al = ctx.choose(2); o = l if al else s.other(); m = o.len; B = arr(o); r = getattr(l, op)(o); f = lambda q: If(q < n, el(q), sel(B, q - n))
            s.post(r, n + m, f, 'the sum')
            if op == '__add__': s.new(r); s.same(); ctx.prove(mem(r) is not mem(o), 'the result has its own storage', s.w)
            else: ctx.prove(r is l, 'the list itself is extended', s.w)
            if not al: s.ctx.prove(z3.And(arr(o) == B, o.len == m), 'the other list is unchanged', s.w)
        elif op == 'default_append':
            o = s.other(); m = o.len; B = arr(o); ctx.assume(l.arr.len >= n + m); ctx.prove(num(s.L.List._list_add_opt_default_len(o)) == m, 'planned length', s.w); s.L.List._list_add_opt_default_append(l, o); s.post(l, n + m, lambda q: If(q < n, el(q), sel(B, q - n)))
        elif op == 'literal_append': ctx.assume(l.arr.len > n); s.L.List._list_add_opt_literal_append(l, x); s.post(l, n + 1, lambda q: If(q == n, x, el(q)))
        s.done()
    P(task, {'default_append': '_list_add_opt_default_append', 'literal_append': '_list_add_opt_literal_append'}.get(op, op)).run(go)
def cut(s, key, l, p):
    """specification of the shifting loop of __delitem__(int)"""
    A, n = s.A, s.n
    s.spec((key, 0), lambda d: {'position': z3.And(p <= d.idx, d.idx <= n - 1, 0 <= p), 'shifted part': z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), sel(arr(l), k) == z3.If(z3.And(p <= k, k < d.idx), sel(A, k + 1), sel(A, k))), patterns=[sel(arr(l), k)])},
           lambda d: n - 1 - d.idx, mods=lambda d: [Arr(l)])
def p_insert(task):
    def go(s, ctx, l):
        n, A, x = s.n, s.A, s.x; g = s.index(); p = If(g < 0, If(g + n < 0, 0, g + n), If(g > n, n, g))
        s.spec(('List.insert', 0), lambda d: {'position': z3.And(num(d.idx) == p, p <= d.i, d.i <= n), 'moved part': z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n, z3.Or(k < n, d.i < n)), sel(arr(l), k) == z3.If(k <= d.i, sel(A, k), sel(A, k - 1))), patterns=[sel(arr(l), k)])}
               if True else {}, lambda d: d.i - p, mods=lambda d: [Arr(l)])
        # at d.i itself the old element is still in place
        l.insert(g, x); s.post(l, n + 1, lambda q: If(q < p, sel(A, q), If(q == p, x, sel(A, q - 1)))); s.done()
    P(task, 'insert').run(go)
def p_find(task, op):
    def go(s, ctx, l):
        n, A, x = s.n, s.A, s.x; before = lambda d: {'not among the first': none(A, 0, d.it.i, x), 'position': z3.And(num(d.it.i) >= 0, num(d.it.i) <= n)}
        cnt = z3.Function(ctx.fresh_name('cnt'), z3.IntSort(), z3.IntSort()); ctx.assume(cnt(0) == 0)
        if op == 'count':
            inv = lambda d: {'count so far': num(d.count) == cnt(num(d.it.i)), 'position': z3.And(num(d.it.i) >= 0, num(d.it.i) <= n, num(d.count) >= 0, num(d.count) <= num(d.it.i))}
            step = lambda i: cnt(i + 1) == cnt(i) + z3.If(sel(A, i) == x, 1, 0)      # definition of cnt
            s.spec(('List.count', 0), inv, lambda d: n - d.it.i, snap=lambda d: d.it.i, lemma=lambda o, d: [step(num(o))]); r = l.count(x); ctx.prove(num(r) == cnt(n), 'the number of equal elements', s.w); s.same(); s.done(); return
        inv = (lambda d: dict(before(d), index=num(d.i) == num(d.it.i))) if op in ('index', 'find', 'remove') else before
        s.spec(('List.' + op, 0), inv, lambda d: n - d.it.i); hit = []
        if op == 'remove':
            def dele(self, i):          # contract of __delitem__(int), its own task
                hit.append(i); cfe.prove(z3.And(num(i) >= 0, num(i) < n), 'the index handed to __delitem__ is valid')
            l.__class__ = type('List', (s.L.List,), {'__delitem__': dele})
        try: r = getattr(l, op)(x)
        except ValueError: ctx.prove(op == 'index', 'no error', s.w); ctx.prove(none(A, 0, n, x), 'an error is raised only if no element is equal', s.w); s.same(); s.done('raises'); return
        if op in ('index', 'find'):
            v = num(r)
            if op == 'find': ctx.prove(z3.Implies(v == -1, none(A, 0, n, x)), '-1 means that no element is equal', s.w)
            else: ctx.prove(v >= 0, 'a position', s.w)
            ctx.prove(z3.Or(v == -1 if op == 'find' else False, z3.And(v >= 0, v < n, sel(A, v) == x, none(A, 0, v, x))), 'the position of the first equal element', s.w); s.same()
        elif op == '__contains__':
            if cfe.t(r): ctx.prove(z3.Not(none(A, 0, n, x)), 'a reported element is there', s.w); s.done('found')
            else: ctx.prove(none(A, 0, n, x), 'an element reported absent is not there', s.w); s.done('absent')
            s.same()
        else:
            if cfe.t(r): ctx.prove(len(hit) == 1, 'exactly one element is removed', s.w); v = num(hit[0]); ctx.prove(z3.And(v >= 0, v < n, sel(A, v) == x, none(A, 0, v, x)), 'the first equal element is removed', s.w); s.done('found')
            else: ctx.prove(not hit, 'nothing is removed', s.w); ctx.prove(none(A, 0, n, x), 'False means that no element is equal', s.w); s.same(); s.done('absent')
    P(task, op).run(go)
def p_reverse(task):
    def go(s, ctx, l):
        n, A = s.n, s.A
        s.spec(('List.reverse', 0), lambda d: {'position': z3.And(num(d.i) >= 0, 2 * num(d.i) <= n), 'mirrored part': z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), sel(arr(l), k) == z3.If(z3.Or(k < num(d.i), k >= n - num(d.i)), sel(A, n - 1 - k), sel(A, k))), patterns=[sel(arr(l), k)])}, lambda d: n - 2 * num(d.i), mods=lambda d: [Arr(l)])
        l.reverse(); s.post(l, n, lambda q: sel(A, n - 1 - q)); s.done()
    P(task, 'reverse').run(go)
def p_extend(task, op):
    def go(s, ctx, l):
        n, A = s.n, s.A; al = op == 'extend' and ctx.choose(2); o = l if al else s.other(); m, B = o.len, arr(o); r = []
        tgt = (lambda d: l) if op == 'extend' else (lambda d: d.self); base = n if op == 'extend' else I(0)
        s.spec(('List.' + op, 0), lambda d: {'position': z3.And(num(d.it.i) >= 0, num(d.it.i) <= m), 'length': num(tgt(d).len) == base + num(d.it.i), 'well formed': wf(tgt(d)), 'capacity': num(tgt(d).arr.len) < 1 << 60,
               'elements': z3.And(fa(arr(tgt(d)), 0, base, lambda i: sel(A, i)), fa(arr(tgt(d)), base, base + num(d.it.i), lambda i: sel(B, i - base)))}, lambda d: m - d.it.i, mods=lambda d: [Store(tgt(d))])
        if op == 'extend': l.extend(o); s.post(l, n + m, lambda q: If(q < n, sel(A, q), sel(B, q - n)))
        else: r = s.L.List(o); s.post(r, m, lambda q: sel(B, q)); ctx.prove(mem(r) is not mem(o), 'the result has its own storage', s.w)
        if not al: ctx.prove(z3.And(arr(o) == B, o.len == m), 'the other list is unchanged', s.w)
        s.done()
    P(task, op).run(go)
def p_mul(task, op):
    def go(s, ctx, l):
        n, A = s.n, s.A; t_ = s.index(); ctx.assume(t_ < 1 << 58); ctx.assume(z3.Implies(t_ > 0, n * t_ < 1 << 58)); a, b, q = ctx.fresh_int('a'), ctx.fresh_int('b'), s.q
        ctx.assume(z3.And(a >= 0, b >= 0, b < n, q == a * n + b))          # the arbitrary position as quotient and remainder
        def lem(i, j): return [z3.Implies(z3.And(0 <= j, j < n, i * n + j == q), z3.And(i == a, j == b)), z3.Implies(z3.And(i >= 0, i < t_, n >= 0), z3.And(i * n >= 0, i * n + n <= t_ * n)), (i + 1) * n == i * n + n, (t_ - 1) * n == t_ * n - n]
        w = 'List.' + op; tgt = (lambda d: d.v) if op == '__mul__' else (lambda d: l)
        for e in lem(a, b): ctx.assume(e)
        def used(d): return num(d.v.len) if op == '__mul__' else num(d.idx)
        def common(d):
            R = tgt(d); u = used(d); r = {'element': z3.Implies(z3.And(q < u), sel(arr(R), q) == sel(A, b)), 'range': z3.And(num(d.i) >= 0, num(d.i) < t_ if False else num(d.i) <= t_)}
            if op == '__mul__': r['well formed'] = wf(R); r['room'] = num(R.arr.len) >= t_ * n
            else: r['first copy'] = fa(arr(R), 0, n, lambda i: sel(A, i))
            return r
        def inv0(d):
            r = common(d); i = num(d.i); r['copied so far'] = used(d) == (i * n if op == '__mul__' else (i + 1) * n)
            if op != '__mul__': r['last'] = i <= t_ - 1
            return r
        def inv1(d):
            r = common(d); i, j = num(d.i), num(d.j); r['copied so far'] = used(d) == (i * n if op == '__mul__' else (i + 1) * n) + j; r['inner range'] = z3.And(j >= 0, j <= n, i < (t_ if op == '__mul__' else t_ - 1)); return r
        mods = (lambda d: [Store(d.v)]) if op == '__mul__' else (lambda d: [Arr(l)]); off = 0 if op == '__mul__' else 1
        ent = lambda d: lem(num(d.i) + off, num(d.j) if 'j' in d.d and not isinstance(d.d['j'], cfe.Undef) else I(0))
        s.spec((w, 0), inv0, lambda d: t_ - num(d.i), mods=mods, snap=ent, lemma=lambda o, d: o + ent(d) + lem(num(d.i) + off - 1, I(0)))
        s.spec((w, 1), inv1, lambda d: n - num(d.j), mods=mods, snap=ent, lemma=lambda o, d: o + ent(d))
        base = cfe.LoopRun.enter
        def enter(self, names, Ls, it=None):
            r = base(self, names, Ls, it); d = dict(Ls); d.update(zip(names, r))
            for f in lem(num(d['i']) + off, num(d['j']) if 'j' in d and not isinstance(d['j'], cfe.Undef) else I(0)) + lem(num(d['i']) + off, I(0)) + lem(num(d['i']) + off, n): ctx.assume(f)
            return r
        cfe.LoopRun.enter = enter
        try: r = getattr(l, op)(t_)
        finally: cfe.LoopRun.enter = base
        N = z3.If(t_ <= 0, 0, t_ * n); s.post(r, N, lambda _: sel(A, b), 'the repetition', at=q)
        if op == '__mul__': s.same(); s.new(r)
        else: ctx.prove(r is l, 'the list itself is repeated', s.w)
        s.done()
    P(task, op).run(go)
def p_cmp(task, op):
    def go(s, ctx, l):
        n, A = s.n, s.A; o = s.other(); m, B = o.len, arr(o); eqs = lambda hi: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < hi), sel(A, k) == sel(B, k)), patterns=[z3.MultiPattern(sel(A, k)), z3.MultiPattern(sel(B, k))])
        w = 'List.' + op; mn = z3.If(n < m, n, m)
        s.spec((w, 0), lambda d: {'equal so far': eqs(num(d.it.i)), 'range': z3.And(num(d.it.i) >= 0, num(d.it.i) <= mn)}, lambda d: mn - d.it.i)
        d = ctx.fresh_int('d')      # an arbitrary position; the first difference where one is claimed
        first = lambda c: z3.Exists([k], z3.And(0 <= k, k < mn, c(sel(A, k), sel(B, k)), z3.ForAll([z3.Int('k2')], z3.Implies(z3.And(0 <= z3.Int('k2'), z3.Int('k2') < k), sel(A, z3.Int('k2')) == sel(B, z3.Int('k2'))))))
        if op == '__eq__':
            if cfe.t(l == o if False else l.__eq__(o)): ctx.prove(z3.And(n == m, eqs(n)), 'equal lists have equal elements', s.w); s.done('equal')
            else: ctx.prove(z3.Not(z3.And(n == m, eqs(n))), 'lists reported different differ', s.w); s.done('different')
        else:
            r = num(l._cmp(o)); ctx.prove(z3.Implies(r == 0, z3.And(n == m, eqs(n))), 'zero for equal lists', s.w)
            at = num(cfe.CUR.ctx.extra['i']) if 'i' in ctx.extra else None
            if at is not None:
                ctx.prove(z3.And(eqs(at), at < mn, z3.If(r < 0, sel(A, at) < sel(B, at), z3.And(r > 0, sel(A, at) > sel(B, at)))), 'the order is that of the first difference', s.w); s.done('differ')
            else: ctx.prove(z3.And(eqs(mn), z3.If(n < m, r < 0, z3.If(n > m, r > 0, r == 0))), 'with a common prefix the shorter list comes first', s.w); s.done('prefix')
        s.same(); ctx.prove(z3.And(arr(o) == B, o.len == m), 'the other list is unchanged', s.w)
    def hook(s, ctx, l):
        # the position at which the comparison loop is left
        base = cfe.PyIter.next
        def nx(self): v = base(self); ctx.extra['i'] = v; return v
        more = cfe.PyIter.more
        def mo(self): ctx.extra.pop('i', None); return more(self)
        cfe.PyIter.next, cfe.PyIter.more = nx, mo
        try: go(s, ctx, l)
        finally: cfe.PyIter.next, cfe.PyIter.more = base, more
    P(task, op).run(hook)
def p_order(task, op):
    """comparison operators over the contract of _cmp / __eq__"""
    def go(s, ctx, l):
        o = s.other(); c = ctx.fresh_int('cmp'); e = ctx.fresh_bool('eq'); ctx.assume(z3.Or(c == -1, c == 0, c == 1))
        l.__class__ = type('List', (s.L.List,), {'_cmp': lambda self, b: c if self is l and b is o else cfe.prove(False, 'compares the operands'), '__eq__': lambda self, b: e})
        r = cfe.t(getattr(l, op)(o)); want = {'__lt__': c < 0, '__gt__': c > 0, '__le__': c <= 0, '__ge__': c >= 0, '__ne__': z3.Not(e)}[op]
        ctx.prove(want == z3.BoolVal(r), 'the order of the lists', s.w); s.done('true' if r else 'false')
    P(task, op).run(go)
def p_iter(task, op):
    def go(s, ctx, l):
        n, A = s.n, s.A; G = {'i': I(0)}; rev = op == '__reversed__'
        def hv(d): G['i'] = ctx.fresh_int('gi'); return num(n - 1 - G['i']) if rev else G['i']
        s.spec((s.w, 0), lambda d: {'counter': z3.And(G['i'] >= 0, num(d.i) == (n - 1 - G['i'] if rev else G['i']))}, None, hav={'i': hv}, mods=lambda d: [] if rev else [Store(l)])      # the caller may change the list between two elements
        g = getattr(l, op)()
        def over(): return z3.Or(G['i'] >= n, G['i'] >= l.len) if not rev else G['i'] >= n
        try: v = next(g)
        except StopIteration: ctx.prove(over(), 'iteration ends only after the last element', s.w); s.done('ends'); return
        i = G['i']; ctx.prove(z3.And(i < n, i < num(l.len), v == sel(arr(l), n - 1 - i if rev else i)), 'the next element is visited', s.w); s.done('visits'); G['i'] = i + 1
        try: next(g)
        except StopIteration: ctx.prove(over(), 'iteration ends only after the last element', s.w); s.done('ends'); return
        raise Unsupported('a second element without passing the loop head')
    P(task, op, contracts=False).run(go)
# ---- slices ----
def p_assign(task):
    def go(s, ctx, l):
        n, A = s.n, s.A; lo_, hi_ = s.index(), s.index(); m = ctx.fresh_int('count'); ctx.assume(z3.And(m >= 0, m < 1 << 58)); ctx.input('count', m); nul = ctx.choose(2); src = None if nul else Mem.sym(ctx, 'v', m); B = src.arr if src else None
        if nul: ctx.assume(m == 0)
        lo = z3.If(lo_ < 0, 0, z3.If(lo_ > n, n, lo_)); hi = z3.If(hi_ < lo, lo, z3.If(hi_ > n, n, hi_)); d = m - (hi - lo)
        s.spec(('List._assign_slice', 0), lambda e: {'position': z3.And(num(e.k) >= 0, num(e.k) <= m, num(e.ilow) == lo + num(e.k)), 'kept parts': z3.And(fa(arr(l), 0, lo, lambda i: sel(A, i)), fa(arr(l), lo + m, n + d, lambda i: sel(A, i - d))), **({'assigned part': fa(arr(l), lo, lo + num(e.k), lambda i: sel(B, i - lo))} if B is not None else {})}, lambda e: m - num(e.k), mods=lambda e: [Arr(l)])
        l._assign_slice(lo_, hi_, Ptr(src), m); s.post(l, n + d, lambda q: If(q < lo, sel(A, q), If(q < lo + m, sel(B, q - lo) if B is not None else 0, sel(A, q - d)))); s.done()
    P(task, '_assign_slice').run(go)
def adjusted(s, ctx, given):
    """a slice with the given parts, and the contract of adjust_indices (proved by C04)"""
    import c04
    a, b, st = (c04.opt(ctx, nm, g) for nm, g in zip(('start', 'stop', 'step'), given)); sl = s.L.slice(a, b, st); sl.__class__ = type('Slice', (s.L.env['Slice'],), {'adjust_indices': c04.adjust_contract(ctx, s.L, s.n, a, b, st)}); return sl, st
GIVEN = [g for g in itertools.product((False, True), repeat=3)]
def p_setslice(task, given):
    def go(s, ctx, l):
        n, A, q = s.n, s.A, s.q; sl, S = adjusted(s, ctx, given); al = ctx.choose(2); o = l if al else s.other(); m, B = o.len, arr(o); call = []
        def assign(self, lo, hi, v, c):         # contract of _assign_slice, its own task
            cfe.prove(v.m is None or v.m is not mem(l), 'the assigned elements are not in the storage that is changed'); call.append((lo, hi, v, c))
        l.__class__ = type('List', (s.L.List,), {'_assign_slice': assign}); b = ctx.fresh_int('b')
        def ext(d):
            X, Y, st, c = ctx.extra['adj']; i = num(d.i)
            r = {'position': z3.And(i >= 0, i <= c, z3.Implies(i < c, num(d.cur) == X + i * st)), 'assigned so far': z3.Implies(z3.And(b >= 0, b < i), sel(arr(l), X + b * st) == sel(B, b)), 'others': z3.Implies(ctx.extra['hyp'](), sel(arr(l), q) == sel(A, q))}
            return r
        # an arbitrary position q outside the progression: start + i*step differs from q for every i
        miss = ctx.fresh_bool('miss'); ctx.extra['hyp'] = lambda: miss
        def inst(i):
            X, Y, st, c = ctx.extra['adj']; return [z3.Implies(z3.And(miss, i >= 0, i < c), X + i * st != q), z3.Implies(z3.And(i * st == b * st, st != 0), i == b), (i + 1) * st == i * st + st] + inside(X, Y, st, c, i, n) + inside(X, Y, st, c, b, n)
        s.spec(('List.__setitem__', 0), lambda d: {'copied': z3.And(num(l.len) == num(d.it.i), wf(l), num(l.arr.len) < 1 << 60, fa(arr(l), 0, num(d.it.i), lambda i: sel(B, i)), num(d.it.i) >= 0, num(d.it.i) <= m)}, lambda d: m - d.it.i, mods=lambda d: [Store(l)])
        s.spec(('List.__setitem__', 1), ext, lambda d: ctx.extra['adj'][2 + 1] - num(d.i), mods=lambda d: [Arr(l)], snap=lambda d: inst(num(d.i)), lemma=lambda o_, d: o_)
        base = cfe.LoopRun.enter
        def enter(self, names, Ls, it=None):
            if self.key[1] == 1:
                for f in inst(I(0)): ctx.assume(f)
            r = base(self, names, Ls, it); d = dict(Ls); d.update(zip(names, r))
            if self.key[1] == 1:
                for f in inst(num(d['i'])): ctx.assume(f)
            return r
        cfe.LoopRun.enter = enter
        try: l.__setitem__(sl, o)
        except ValueError:
            if 'adj' not in ctx.extra: ctx.prove(S == 0 if S is not None else False, 'an error is raised only for a zero step or a wrong size', s.w)
            else: X, Y, st, c = ctx.extra['adj']; ctx.prove(z3.And(st != 1, m != c), 'an error is raised only for a zero step or a wrong size', s.w)
            s.same(); s.done('raises'); return
        finally: cfe.LoopRun.enter = base
        if not al: ctx.prove(z3.And(arr(o) == B, o.len == m), 'the other list is unchanged', s.w)
        if not any(given): s.post(l, m, lambda i: sel(B, i)); s.done('whole list'); return
        X, Y, st, c = ctx.extra['adj']
        if call:
            lo, hi, v, cn = call[0]; ctx.prove(len(call) == 1, 'one assignment', s.w); ctx.prove(st == 1, 'only a contiguous slice is replaced as a block', s.w); ctx.prove(z3.And(num(lo) == X, num(hi) == Y, num(cn) == m), 'the part Python replaces', s.w); ctx.prove(z3.Implies(z3.And(0 <= q, q < m), sel(v.m.arr, num(v.o) + q) == sel(B, q)), 'by the elements of the other list', s.w); ctx.prove(z3.Implies(m > 0, num(v.o) + m <= num(v.m.n)), 'all of them', s.w); s.same(); s.done('block'); return
        ctx.prove(st != 1, 'a contiguous slice may change the size', s.w); ctx.prove(m == c, 'a sequence of a different size is rejected', s.w)
        ctx.prove(wf(l), 'the list stays well formed', s.w); ctx.prove(num(l.len) == n, 'the length is kept', s.w); ctx.prove(z3.Implies(z3.And(b >= 0, b < c), sel(arr(l), X + b * st) == sel(B, b)), 'every selected position gets its element', s.w); ctx.prove(z3.Implies(z3.And(miss, 0 <= q, q < n), sel(arr(l), q) == sel(A, q)), 'every other position is kept', s.w); s.done('extended')
    P(task, '__setitem__', exact='wrap').run(go)
def inside(X, Y, st, c, i, n):
    """what count_ok gives for element i < c of the progression: it lies before the stop value, so inside the list"""
    e = c - 1 - i; return [z3.Implies(z3.And(i >= 0, i < c), z3.And(e * st == (c - 1) * st - i * st, z3.If(st > 0, z3.And(e * st >= 0, i * st >= 0), z3.And(e * st <= 0, i * st <= 0)), (c - 1) * st == c * st - st, z3.If(st > 0, (c - 1) * st < Y - X, (c - 1) * st > Y - X)))]
def p_delslice(task, given):
    def go(s, ctx, l):
        n, A, q = s.n, s.A, s.q; sl, S = adjusted(s, ctx, given); call = []; g = ctx.fresh_int('g')
        def assign(self, lo, hi, v, c): call.append((lo, hi, c))         # contract of _assign_slice, its own task
        l.__class__ = type('List', (s.L.List,), {'_assign_slice': assign}); real = sl.adjust_indices
        def lem(i, st, c):
            e = g - i - 2; return [(i + 1) * st == i * st + st, (i - g) * (st - 1) == i * st - i - g * st + g, z3.Implies(i >= g, (i - g) * (st - 1) >= 0), e * (st - 1) == g * st - g - i * st + i - 2 * st + 2, z3.Implies(e >= 0, e * (st - 1) >= 0),
                    i * (st - 1) == i * st - i, z3.Implies(i >= 0, i * (st - 1) >= 0), (g - 1) * st == g * st - st, (c - 1) * st == c * st - st, z3.Implies(i >= c, i * st >= c * st), z3.Implies(i <= c - 1, i * st <= (c - 1) * st)]
        def adjust(self, length):
            X, Y, st, c = real(length); m = z3.If(st > 0, st, -st); ctx.assume(z3.And((c - 1) * st == c * st - st, z3.If(st > 0, (c - 1) * m == (c - 1) * st, (c - 1) * m == -((c - 1) * st)), z3.Implies(c >= 2, (c - 1) * m >= m), z3.Implies(c == 1, (c - 1) * m == 0), (c - 1) * (-st) == -((c - 1) * st), c * (-st) == -(c * st), z3.Implies(c == 1, z3.And(c * st == st, c * n == n, (c - 1) * n == 0))))
            # position q of the result, with g removed elements before it: it is element q + g
            F = z3.If(st > 0, X, X + (c - 1) * st); ctx.assume((g - 1) * m == g * m - m); ctx.assume(z3.If(st > 0, g * st == g * m, g * st == -(g * m)))
            for f in [z3.Implies(c == 1, z3.And(z3.Implies(g == 1, z3.And(g * m == m, g * n == n)), z3.Implies(g == 0, z3.And(g * m == 0, g * n == 0))))]: ctx.assume(f)
            ctx.assume(z3.And(0 <= g, g <= c, 0 <= q, q < n - c, z3.Implies(g > 0, F + (g - 1) * m < q + g), z3.Implies(g < c, q + g < F + g * m)))
            return X, Y, st, c
        sl.__class__ = type('Slice', (sl.__class__,), {'adjust_indices': adjust})
        def inv(d):
            s0, st, c, i, cur = num(d.start), num(d.step), num(d.length), num(d.i), num(d.cur)
            return {'position': z3.And(i >= 0, i <= c, cur == s0 + i * st, st >= 1, st <= n, s0 >= 0, num(l.len) == n), 'progression': z3.And(c >= 1, c <= n, s0 + (c - 1) * st < n, num(d.stop) > s0 + (c - 1) * st, num(d.stop) <= s0 + c * st, num(d.stop) <= n),
                    'removed before the position': z3.And(z3.Implies(g > 0, s0 + (g - 1) * st < q + g), z3.Implies(g < c, q + g < s0 + g * st)),
                    'not yet moved': z3.ForAll([k], z3.Implies(z3.And(cur - i <= k, k < n), sel(arr(l), k) == sel(A, k)), patterns=[sel(arr(l), k)]), 'kept so far': z3.Implies(q < cur - i, sel(arr(l), q) == sel(A, q + g))}
        at = lambda d: lem(num(d.i), num(d.step), num(d.length)) + lem(I(0), num(d.step), num(d.length))
        s.spec(('List.__delitem__', 0), inv, lambda d: num(d.length) - num(d.i), mods=lambda d: [Arr(l)], snap=at, lemma=lambda o, d: o + at(d))
        base = cfe.LoopRun.enter
        def enter(self, names, Ls, it=None):
            NSd = type('D', (), {}); 
            for f in lem(num(Ls['i']), num(Ls['step']), num(Ls['length'])): ctx.assume(f)
            r = base(self, names, Ls, it); d = dict(Ls); d.update(zip(names, r))
            for f in lem(num(d['i']), num(d['step']), num(d['length'])): ctx.assume(f)
            return r
        cfe.LoopRun.enter = enter
        try: l.__delitem__(sl)
        except ValueError: ctx.prove(S == 0 if S is not None else False, 'an error is raised only for a zero step', s.w); s.same(); s.done('raises'); return
        finally: cfe.LoopRun.enter = base
        if not any(given): s.post(l, 0, lambda i: sel(A, i)); s.done('whole list'); return
        X, Y, st, c = ctx.extra['adj']
        if call: lo, hi, cn = call[0]; ctx.prove(len(call) == 1, 'one replacement', s.w); ctx.prove(z3.And(num(lo) == X, num(hi) == Y, num(cn) == 0, st == 1), 'the part Python removes', s.w); ctx.prove(z3.And(arr(l) == A, num(l.len) == n), 'nothing else changes', s.w); s.done('block'); return
        s.post(l, n - c, lambda q_: sel(A, q_ + g) if q_ is q else sel(A, q_)); s.done('extended')
    P(task, '__delitem__').run(go)
def p_opt(task, given):
    """the helpers that build a + b[s] + [x] in one allocation"""
    def go(s, ctx, l):
        n, A, q = s.n, s.A, s.q; sl, S = adjusted(s, ctx, given); C = s.L.List; o = s.other('ans'); m, B = o.len, arr(o)
        try: c = num(C._list_add_opt_slice_len(l, sl))
        except ValueError: ctx.prove(S == 0 if S is not None else False, 'an error is raised only for a zero step', s.w); s.done('raises'); return
        if any(given): X, Y, st, cc = ctx.extra['adj']; ctx.prove(c == cc, 'planned length', s.w); a1 = dict(ctx.extra)
        else: X, st, cc = I(0), I(1), n; ctx.prove(c == n, 'planned length', s.w)
        ctx.assume(o.arr.len >= m + cc); cls = sl.__class__; first = ctx.extra.get('adj')
        if first: sl.__class__ = type('Slice', (cls,), {'adjust_indices': lambda self, length: (cfe.prove(length == n, 'bounds are adjusted to the length of the sequence'), first)[1]})
        def lem(i): e = cc - i; return [(i + 1) * st == i * st + st, e * st + i * st == cc * st, (cc - 1) * st == cc * st - st, z3.Implies(z3.And(st >= 1, e >= 1), e * st >= st), z3.Implies(z3.And(st <= -1, e >= 1), e * st <= st), z3.Implies(z3.And(st >= 1, e <= 0), e * st <= 0), z3.Implies(z3.And(st <= -1, e <= 0), e * st >= 0), z3.Implies(i == 0, i * st == 0)]
        def inv(d):
            i = num(d.ans.len) - m; p = num(d.it.i); Y = first[1]
            return {'count': z3.And(i >= 0, i <= cc), 'next index': z3.And(p == X + i * st, z3.If(st > 0, p >= X, p <= X), z3.Implies(st > 0, (p < Y) == (i < cc)), z3.Implies(st < 0, (p > Y) == (i < cc))), 'first part': fa(arr(o), 0, m, lambda j: sel(B, j)),
                    'elements': z3.ForAll([k], z3.Implies(z3.And(m <= k, k < m + i), sel(arr(o), k) == sel(A, X + (k - m) * st)), patterns=[sel(arr(o), k)])}
        class Len:
            def havoc(self, ctx): o.len = ctx.fresh_int('h_len')
        s.spec(('List._list_add_opt_slice_append', 0), inv, lambda d: cc - (num(d.ans.len) - m), mods=lambda d: [Arr(o), Len()], snap=lambda d: lem(num(d.ans.len) - m), lemma=lambda o_, d: o_ + lem(num(d.ans.len) - m))
        base = cfe.LoopRun.enter
        def enter(self, names, Ls, it=None):
            for f in lem(I(0)): ctx.assume(f)
            r = base(self, names, Ls, it)
            for f in lem(num(o.len) - m): ctx.assume(f)
            return r
        cfe.LoopRun.enter = enter
        try: C._list_add_opt_slice_append(o, l, sl)
        finally: cfe.LoopRun.enter = base
        s.post(o, m + cc, lambda q_: If(q_ < m, sel(B, q_), sel(A, X + (q_ - m) * st)), 'the sum'); ctx.prove(z3.And(arr(l) == A, num(l.len) == n), 'the sliced list is unchanged', s.w); s.done()
    P(task, '_list_add_opt_slice_append').run(go)
# ---- concrete histories ----
def attempt(f):
    cfe.CUR.budget = 200000
    try: return f()
    except UB as e: return 'undefined behaviour: %s' % e
    except (IndexError, ValueError, AssertionError, ZeroDivisionError, OverflowError) as e: return type(e).__name__
IDX = [M63 - 1, -M63, 1 << 62, -(1 << 62), M63 - 2, 1 - M63]
def f_hist(rep, part):
    L = cstd.core_env(); L.funcs('internal/types/collections/list.codon') if False else None; r = random.Random(rep.seed * 17 + part)
    def ix(n): return r.choice(IDX) if r.random() < .06 else r.randrange(-n - 3, n + 4)
    def sl(n): return tuple(None if r.random() < .3 else ix(n) for _ in range(2)) + (None if r.random() < .45 else r.choice((1, 1, -1, 2, -2, 3, -3, ix(n))),)
    for it in range(900 if rep.tier == 'quick' else 30000):
        py = r.random() < .5; cfe.use(cfe.RT(py=py)); n = r.randrange(0, 8); q = [r.randrange(6) for _ in range(n)]; l = cstd.mklist(L, q, r.randrange(3)); hist = ['l = %s%s' % (q, ' (python numerics)' if py else '')]
        for step in range(r.choice((1, 3, 8))):
            n = len(q); x = r.randrange(6); o = [r.randrange(6) for _ in range(r.randrange(0, 5))]; me = r.random() < .15; oq = q if me else o; on = 'l' if me else str(o); ol = l if me else cstd.mklist(L, o, r.randrange(3)); i = ix(n); s = sl(n); S = L.slice(*s); ss = ':'.join('' if v is None else str(v) for v in s)
            k = r.choice(('append', 'extend', 'insert', 'remove', 'pop', 'pop', 'clear', 'index', 'find', 'count', 'reverse', 'copy', 'get', 'set', 'del', 'getslice', 'setslice', 'setslice', 'setslice', 'delslice', 'delslice', 'add', 'iadd', 'mul', 'imul', 'in', 'eq', 'lt', 'le', 'gt', 'ge', 'ne', 'iter', 'reversed', 'len', 'bool', 'optslice', 'cap', 'from', 'iterate', 'shrink'))
            if k == 'clear' and r.random() < .8: continue
            m = r.choice((0, 1, 2, 3, -1, -M63)); P = lambda v: v if isinstance(v, str) else cstd.pylist(v)
            py_, co, name = {
                'append': (lambda: q.append(x), lambda: l.append(x), 'l.append(%d)' % x), 'extend': (lambda: q.extend(list(oq)), lambda: l.extend(ol), 'l.extend(%s)' % on),
                'insert': (lambda: q.insert(i, x), lambda: l.insert(i, x), 'l.insert(%d, %d)' % (i, x)), 'remove': (lambda: (x in q) and (q.remove(x) or True), lambda: cfe.t(l.remove(x)), 'l.remove(%d)' % x),
                'pop': (lambda: q.pop(i), lambda: l.pop(i), 'l.pop(%d)' % i), 'clear': (lambda: q.clear(), lambda: l.clear(), 'l.clear()'), 'index': (lambda: q.index(x), lambda: l.index(x), 'l.index(%d)' % x),
                'find': (lambda: q.index(x) if x in q else -1, lambda: l.find(x), 'l.find(%d)' % x), 'count': (lambda: q.count(x), lambda: l.count(x), 'l.count(%d)' % x), 'reverse': (lambda: q.reverse(), lambda: l.reverse(), 'l.reverse()'),
                'copy': (lambda: q[:], lambda: P(l.copy()), 'l.copy()'), 'get': (lambda: q[i], lambda: l[i], 'l[%d]' % i), 'set': (lambda: q.__setitem__(i, x), lambda: l.__setitem__(i, x), 'l[%d] = %d' % (i, x)), 'del': (lambda: q.__delitem__(i), lambda: l.__delitem__(i), 'del l[%d]' % i),
                'getslice': (lambda: q[slice(*s)], lambda: P(l[S]), 'l[%s]' % ss), 'setslice': (lambda: q.__setitem__(slice(*s), list(oq)), lambda: l.__setitem__(S, ol), 'l[%s] = %s' % (ss, on)), 'delslice': (lambda: q.__delitem__(slice(*s)), lambda: l.__delitem__(S), 'del l[%s]' % ss),
                'add': (lambda: q + oq, lambda: P(l.__add__(ol)), 'l + %s' % on), 'iadd': (lambda: q.extend(list(oq)), lambda: None if l.__iadd__(ol) is l else 'another list', 'l += %s' % on), 'mul': (lambda: q * m, lambda: P(l.__mul__(m)), 'l * %d' % m), 'imul': (lambda: q.__imul__(m) is None or None, lambda: None if l.__imul__(m) is l else 'another list', 'l *= %d' % m),
                'in': (lambda: x in q, lambda: cfe.t(l.__contains__(x)), '%d in l' % x), 'iter': (lambda: list(q), lambda: list(l.__iter__()), 'list(l)'), 'reversed': (lambda: q[::-1], lambda: list(l.__reversed__()), 'reversed(l)'), 'len': (lambda: len(q), lambda: l.__len__(), 'len(l)'), 'bool': (lambda: bool(q), lambda: cfe.t(l.__bool__()), 'bool(l)'),
                'optslice': (lambda: (len(q[slice(*s)]), [7] + q[slice(*s)] + [x]), lambda: optadd(L, l, S, x), '[7] + l[%s] + [%d]' % (ss, x)),
                'cap': (lambda: [], lambda: P(L.List(m)), 'List(%d)' % m), 'from': (lambda: list(q), lambda: P(L.List(l)), 'List(l)'), 'iterate': (lambda: [(v, q.append(v))[0] for v in list(q)], lambda: [(v, l.append(v))[0] for v in l.__iter__()], '[(v, l.append(v))[0] for v in l] over the first elements'),
                'shrink': (lambda: [(v, q.__delitem__(slice(-2, None)))[0] for v in q], lambda: [(v, l.__delitem__(L.slice(-2, None, None)))[0] for v in l.__iter__()], '[(v, l.__delitem__(slice(-2, None)))[0] for v in l]'),
                **{c: ((lambda c=c: getattr(q, '__%s__' % c)(oq)), (lambda c=c: cfe.t(getattr(l, '__%s__' % c)(ol))), 'l.__%s__(%s)' % (c, on)) for c in ('eq', 'ne', 'lt', 'le', 'gt', 'ge')}}[k]
            if k in ('mul', 'imul', 'cap') and abs(m) > 10 and m > 0: continue
            hist.append(name); want = attempt(py_); got = attempt(co); now = attempt(lambda: cstd.pylist(l))
            if got != want or now != q: rep.fail('list:' + k, '%s -> %s, l = %s, expected %s, l = %s' % ('; '.join(hist), got, now, want, q)); break
            if len(q) > 60: break
            rep.case(name)
def optadd(L, l, S, x):
    C = L.List; n = C._list_add_opt_slice_len(l, S); a = L.List(n + 2); C._list_add_opt_literal_append(a, 7); C._list_add_opt_slice_append(a, l, S); C._list_add_opt_literal_append(a, x); return n, cstd.pylist(a)
def setup(tmp, tier): return {}
def tasks(tier):
    out = [T('List.' + o, p_simple, (o,), unit='List.' + o) for o in ('append', 'clear', '__len__', '__bool__', '__init__', '__getitem__', '__setitem__', '__delitem__', 'pop', 'copy', '__copy__', '__add__', '__iadd__', 'default_append', 'literal_append')]
    out += [T('List.insert', p_insert), T('List.reverse', p_reverse), T('List._assign_slice', p_assign)] + [T('List.' + o, p_find, (o,)) for o in ('index', 'find', 'count', 'remove', '__contains__')]
    out += [T('List.extend', p_extend, ('extend',)), T('List.__init__ list', p_extend, ('__init__',))] + [T('List.' + o, p_mul, (o,)) for o in ('__mul__', '__imul__')] + [T('List.' + o, p_cmp, (o,)) for o in ('__eq__', '_cmp')]
    out += [T('List.' + o, p_order, (o,)) for o in ('__ne__', '__lt__', '__le__', '__gt__', '__ge__')] + [T('List.' + o, p_iter, (o,)) for o in ('__iter__', '__reversed__')]
    out += [T('List.__setitem__ slice %s' % ''.join(map(str, map(int, g))), p_setslice, (g,), unit='List.__setitem__ slice') for g in GIVEN]
    out += [T('List.__delitem__ slice %s' % ''.join(map(str, map(int, g))), p_delslice, (g,), unit='List.__delitem__ slice') for g in GIVEN]
    out += [T('List._list_add_opt_slice %s' % ''.join(map(str, map(int, g))), p_opt, (g,), unit='List._list_add_opt_slice') for g in GIVEN]
    return out
def finders(tier): return [T('histories/%d' % i, f_hist, (i,), timeout=600) for i in range(6)]
