"""C13: heaps, bisection and double-ended queues keep their invariants (stdlib/heapq.codon, bisect.codon, collections.codon)."""
import heapq, bisect, collections, random, itertools
import z3
import core, cfe, cstd
from core import Unsupported
from cfe import Loop, Mem, Ptr, UB
from check import T
PROP = 'C13'; LEVEL = 'proof'
TECHNIQUE = 'deductive verification: contracts and loop invariants on the Codon library functions (extracted on every run), obligations by SMT over arrays and integers'
NOTE = ('Bisection, the sift loops, heapify and every heap operation are proved for lists of any length over a totally ordered key (heap order kept, same multiset, the root is a smallest element); '
        'the deque operations for every ring capacity that is a power of two up to 2^40, every head, tail and contents. nsmallest/nlargest/merge, deque constructors and whole histories run concretely (bounded).')
ASSUMPTIONS = ['element comparison is a total order and has no effects (keys are represented by integers)', 'lists have fewer than 2^58 elements (memory), so index arithmetic is proved not to overflow under that bound',
               'a transposition of two elements keeps the multiset (lemma used for the sift loops)', 'List.__getitem__/__setitem__/append/pop/insert are the bodies of list.codon (inlined; insert and pop(-1) by the contract proved in C12)']
TRUSTED = ['dv/cparse.py, dv/cfe.py (extraction and semantics of the Codon subset)', 'dv/cstd.py (memory primitives)', 'z3', 'cvc5']
EXPLANATION = 'functions are read from /repo/stdlib on every run; see DESIGN.md section 2'
BUDGET = {'quick': 300, 'thorough': 1500}
I = z3.IntSort(); ARR = z3.ArraySort(I, I)
j, k, p, c = z3.Ints('j k p c')
def sel(a, i): return z3.Select(a, i)
# ---- bisection ----
def sorted_(a, n): return z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j <= k, k < n), sel(a, j) <= sel(a, k)), patterns=[z3.MultiPattern(sel(a, j), sel(a, k))])
def all_(a, lo, hi, f): return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), f(sel(a, k))), patterns=[sel(a, k)])
def prep(ctx, L, loops, py, who): cfe.use(cfe.RT(ctx, py=py, loops=loops, exact=True)).who = who
def p_bisect(task, fn, py, mode):
    right = fn.endswith('right')
    L = cstd.core_env(); L.funcs('bisect.codon', fn); task.functions |= L.used
    def go(ctx):
        a = cstd.symlist(L, ctx, 'a'); n = a.len; A = a.arr.ptr.m.arr; x = ctx.fresh_int('x'); ctx.input('x', x)
        below, above = ((lambda v: v <= x), (lambda v: x < v)) if right else ((lambda v: v < x), (lambda v: x <= v))
        lo0 = z3.IntVal(0) if mode == 'all' else ctx.fresh_int('lo'); hi0 = n
        if mode != 'all': ctx.assume(cfe.inr(lo0))
        if mode == 'range': hi0 = ctx.fresh_int('hi'); ctx.assume(z3.And(lo0 <= hi0, hi0 <= n, lo0 >= 0))
        if mode == 'low': ctx.assume(lo0 <= n)
        ctx.assume(sorted_(A, n))
        inv = lambda l: {'bounds': z3.And(lo0 <= l.lo, l.lo <= l.hi, l.hi <= hi0), 'left part': all_(A, lo0, l.lo, below), 'right part': all_(A, l.hi, hi0, above)}
        prep(ctx, L, {(fn, 0): Loop(inv, lambda l: l.hi - l.lo)}, py, fn)
        f = L.env[fn]
        try: r = f(a, x) if mode == 'all' else f(a, x, lo0) if mode == 'low' else f(a, x, lo0, hi0)
        except ValueError: ctx.prove(lo0 < 0, 'an error is raised only for a negative lower bound', fn); ctx.cover('raises'); return
        ctx.prove(lo0 >= 0, 'a negative lower bound is rejected', fn)
        ctx.prove(z3.And(lo0 <= r, r <= hi0), 'the position lies in the range', fn)
        ctx.prove(all_(A, lo0, r, below), 'everything before the position is smaller' + (' or equal' if right else ''), fn)
        ctx.prove(all_(A, r, hi0, above), 'everything after the position is larger' + ('' if right else ' or equal'), fn)
        ctx.cover('returns')
    core.explore(task, go)
def p_insort(task, fn):
    right = fn.endswith('right'); b = 'bisect_' + fn.split('_')[1]
    L = cstd.core_env(); L.funcs('bisect.codon', b, fn); task.functions |= L.used
    def go(ctx):
        a = cstd.symlist(L, ctx, 'a'); n = a.len; A = a.arr.ptr.m.arr; x = ctx.fresh_int('x'); ctx.assume(sorted_(A, n))
        def contract(a_, x_, lo=0, hi=None):
            r = ctx.fresh_int('r'); below, above = ((lambda v: v <= x), (lambda v: x < v)) if right else ((lambda v: v < x), (lambda v: x <= v))
            ctx.assume(z3.And(0 <= r, r <= n, all_(A, 0, r, below), all_(A, r, n, above))); ctx.extra['r'] = r; return r
        L.env[b] = contract
        ins = insert_contract(ctx); a.__class__ = type('L', (L.List,), {'insert': ins, 'append': lambda s, v: ins(s, s.len, v)})
        prep(ctx, L, {}, False, fn); L.env[fn](a, x); r = ctx.extra['r']; B = a.arr.ptr.m.arr
        ctx.prove(a.len == n + 1, 'one element is added', fn); ctx.prove(z3.And(sel(B, r) == x, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), sel(B, z3.If(k < r, k, k + 1)) == sel(A, k)))), 'the other elements keep their order', fn)
        ctx.prove(sorted_(B, n + 1), 'the list stays sorted', fn); ctx.cover('returns')
    core.explore(task, go)
def insert_contract(ctx):
    def insert(s, i, v):
        """contract of List.insert for 0 <= i <= len (C12)"""
        n, A = s.len, s.arr.ptr.m.arr; cfe.prove(z3.And(0 <= i, i <= n), 'insert position inside the list'); B = z3.Const(ctx.fresh_name('ins'), ARR)
        ctx.assume(z3.ForAll([k], sel(B, k) == z3.If(k < i, sel(A, k), z3.If(k == i, v, sel(A, k - 1))), patterns=[sel(B, k)])); s.arr = type(s.arr)(Ptr(Mem(n + 1, None, B)), n + 1); s.len = n + 1
    return insert
# ---- heaps: ORD(x, y) is "x may be above y" ----
PERM = z3.Function('perm', ARR, z3.BoolSort()); SUB = z3.Function('sub', I, z3.BoolSort())
def le(mx): return (lambda a, b: a >= b) if mx else (lambda a, b: a <= b)
def child(p, c): return z3.Or(c == 2 * p + 1, c == 2 * p + 2)
def order(a, n, s, mx, hole=None):
    """heap order on all edges parent -> child with parent >= s, except those that touch the hole"""
    g = [p >= s, p >= 0, c < n, child(p, c)] + ([p != hole, c != hole] if hole is not None else [])
    return z3.ForAll([p, c], z3.Implies(z3.And(*g), le(mx)(sel(a, p), sel(a, c))), patterns=[z3.MultiPattern(sel(a, p), sel(a, c))])
def under(a, n, h, v, mx): return z3.ForAll([c], z3.Implies(z3.And(c < n, child(h, c)), le(mx)(v, sel(a, c))), patterns=[sel(a, c)])
def par(x): return (x - 1) / 2
def gap(a, n, s, h, mx): return z3.ForAll([c], z3.Implies(z3.And(h > s, c < n, child(h, c)), le(mx)(sel(a, par(h)), sel(a, c))), patterns=[sel(a, c)])
def sub_facts(s, *xs):
    """the subtree of s: s itself and the children of its members (least such set)"""
    out = [SUB(s)]
    for x in xs: out += [z3.Implies(SUB(x), z3.And(x >= s, SUB(2 * x + 1), SUB(2 * x + 2))), z3.Implies(z3.And(SUB(x), x != s), z3.And(x > s, par(x) >= s, SUB(par(x))))]
    return out
def swap(a, i, q): return z3.Store(z3.Store(a, i, sel(a, q)), q, sel(a, i))
def down_spec(s0, n, mx):
    new = lambda l: l.newitem
    A = lambda l: l.heap.arr.ptr.m.arr
    inv = lambda l: {'position': z3.And(s0 <= l.pos, l.pos < n, SUB(l.pos)), 'order away from the hole': order(A(l), n, s0, mx, l.pos), 'new item above the children of the hole': under(A(l), n, l.pos, new(l), mx),
                     'parent of the hole above its children': gap(A(l), n, s0, l.pos, mx), 'same elements': PERM(z3.Store(A(l), l.pos, new(l)))}
    snap = lambda l: (z3.Store(A(l), l.pos, new(l)), l.pos)
    lemma = lambda o, l: sub_facts(s0, o[1], l.pos) + [z3.Implies(z3.And(PERM(o[0]), z3.Store(A(l), l.pos, new(l)) == swap(o[0], o[1], l.pos)), PERM(z3.Store(A(l), l.pos, new(l))))]
    return Loop(inv, lambda l: l.pos - s0, mods=lambda l: [l.heap.arr.ptr.m], snap=snap, lemma=lemma)
def p_siftdown(task, mx):
    fn = '_siftdown' + ('_max' if mx else '')
    L = cstd.core_env(); L.funcs('heapq.codon', fn); task.functions |= L.used
    def go(ctx):
        h = cstd.symlist(L, ctx, 'heap'); n = h.len; m = h.arr.ptr.m; A = m.arr; s0, q = ctx.fresh_int('startpos'), ctx.fresh_int('pos')
        ctx.assume(z3.And(0 <= s0, s0 <= q, q < n, SUB(q)))
        for f in sub_facts(s0, q): ctx.assume(f)
        ctx.assume(PERM(A)); ctx.assume(order(A, n, s0, mx, q)); ctx.assume(under(A, n, q, sel(A, q), mx)); ctx.assume(gap(A, n, s0, q, mx))
        prep(ctx, L, {(fn, 0): down_spec(s0, n, mx)}, False, fn)
        # facts about the subtree at the generalised position
        ent = cfe.LoopRun.enter
        def enter(self, names, Ls, it=None):
            r = ent(self, names, Ls, it); d = dict(zip(names, r))
            for f in sub_facts(s0, d.get('pos', q)): ctx.assume(f)
            return r
        cfe.LoopRun.enter = enter
        try: L.env[fn](h, s0, q)
        finally: cfe.LoopRun.enter = ent
        B = m.arr; ctx.prove(order(B, n, s0, mx), 'heap order holds from the start position on', fn); ctx.prove(PERM(B), 'the heap holds the same elements', fn); ctx.prove(h.len == n, 'the length is unchanged', fn); ctx.cover('returns')
    core.explore(task, go)
def contract_down(ctx, mx):
    def f(h, s0, q):
        n, m = h.len, h.arr.ptr.m; A = m.arr; s0 = z3.IntVal(s0) if type(s0) is int else s0
        for x in sub_facts(s0, q): ctx.assume(x)
        cfe.prove(z3.And(0 <= s0, s0 <= q, q < n), 'the sifted position is in the heap'); cfe.prove(SUB(q), 'the sifted position is below the start position')
        cfe.prove(order(A, n, s0, mx, q), 'heap order holds except at the sifted position'); cfe.prove(under(A, n, q, sel(A, q), mx), 'the sifted item is above its children'); cfe.prove(gap(A, n, s0, q, mx), 'the parent of the sifted position is above its children')
        cfe.prove(PERM(A), 'the heap holds the same elements'); m.havoc(ctx); ctx.assume(order(m.arr, n, s0, mx)); ctx.assume(PERM(m.arr))
    return f
def p_siftup(task, mx):
    fn = '_siftup' + ('_max' if mx else '')
    L = cstd.core_env(); L.funcs('heapq.codon', fn); task.functions |= L.used
    def go(ctx):
        h = cstd.symlist(L, ctx, 'heap'); n = h.len; m = h.arr.ptr.m; A = m.arr; s0 = ctx.fresh_int('pos')
        ctx.assume(z3.And(0 <= s0, s0 < n)); ctx.assume(PERM(A)); ctx.assume(order(A, n, s0 + 1, mx))
        for f in sub_facts(s0, s0): ctx.assume(f)
        L.env['_siftdown' + ('_max' if mx else '')] = contract_down(ctx, mx)
        M = lambda l: l.heap.arr.ptr.m.arr; N = lambda l: l.newitem
        inv = lambda l: {'position': z3.And(s0 <= l.pos, l.pos < n, l.childpos == 2 * l.pos + 1, SUB(l.pos)), 'order away from the hole': order(M(l), n, s0, mx, l.pos), 'parent of the hole above its children': gap(M(l), n, s0, l.pos, mx), 'same elements': PERM(z3.Store(M(l), l.pos, N(l)))}
        snap = lambda l: (z3.Store(M(l), l.pos, N(l)), l.pos)
        lemma = lambda o, l: sub_facts(s0, o[1], l.pos) + [z3.Implies(z3.And(PERM(o[0]), z3.Store(M(l), l.pos, N(l)) == swap(o[0], o[1], l.pos)), PERM(z3.Store(M(l), l.pos, N(l))))]
        prep(ctx, L, {(fn, 0): Loop(inv, lambda l: n - l.pos, mods=lambda l: [m], snap=snap, lemma=lemma)}, False, fn)
        ent = cfe.LoopRun.enter
        def enter(self, names, Ls, it=None):
            r = ent(self, names, Ls, it)
            for f in sub_facts(s0, dict(zip(names, r)).get('pos', s0)): ctx.assume(f)
            return r
        cfe.LoopRun.enter = enter
        try: L.env[fn](h, s0)
        finally: cfe.LoopRun.enter = ent
        ctx.prove(order(m.arr, n, s0, mx), 'heap order holds from the position on', fn); ctx.prove(PERM(m.arr), 'the heap holds the same elements', fn); ctx.prove(h.len == n, 'the length is unchanged', fn); ctx.cover('returns')
    core.explore(task, go)
def contract_up(ctx, mx):
    def f(h, q):
        n, m = h.len, h.arr.ptr.m; q = z3.IntVal(q) if type(q) is int else q
        cfe.prove(z3.And(0 <= q, q < n), 'the position is in the heap'); cfe.prove(order(m.arr, n, q + 1, mx), 'heap order holds below the position'); ctx.extra.setdefault('in', []).append(m.arr)
        old = m.arr; m.havoc(ctx); ctx.assume(order(m.arr, n, q, mx)); ctx.extra.setdefault('perm', []).append((old, m.arr)); ctx.assume(z3.Implies(PERM(old), PERM(m.arr)))
    return f
def p_root(task, mx):
    """lemma: in a heap the root is a smallest element (strong induction on the index)"""
    def go(ctx):
        n, x = ctx.fresh_int('n'), ctx.fresh_int('x'); A = z3.Const('A', ARR); ctx.assume(z3.And(0 <= x, x < n)); ctx.assume(order(A, n, 0, mx))
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < x), le(mx)(sel(A, 0), sel(A, k))), patterns=[sel(A, k)]))
        ctx.assume(z3.Implies(x > 0, z3.And(child(par(x), x), par(x) >= 0, par(x) < x, sel(A, par(x)) == sel(A, par(x))))); ctx.prove(le(mx)(sel(A, 0), sel(A, x)), 'the root is not above any element', 'heap'); ctx.cover('lemma')
    core.explore(task, go)
def p_heapop(task, op):
    mx = op.endswith('_max'); sfx = '_max' if mx else ''
    L = cstd.core_env(); L.funcs('heapq.codon', op); task.functions |= L.used
    def go(ctx):
        h = cstd.symlist(L, ctx, 'heap'); n = h.len; m = h.arr.ptr.m; A = m.arr; item = ctx.fresh_int('item')
        def down(hh, s, q):
            mm = hh.arr.ptr.m; old = mm.arr
            cfe.prove(z3.And(s == 0, q == hh.len - 1) if cfe.sym(q) else s == 0, 'the new element is the last one'); cfe.prove(order(old, hh.len, 0, mx, q), 'heap order holds except at the new element')
            cfe.prove(z3.And(under(old, hh.len, q, sel(old, q), mx), gap(old, hh.len, z3.IntVal(0), q, mx)), 'the new element has no children'); mm.havoc(ctx); ctx.assume(order(mm.arr, hh.len, 0, mx)); ctx.extra['perm'] = ctx.extra.get('perm', []) + [(old, mm.arr)]
        L.env['_siftdown' + sfx] = down; L.env['_siftup' + sfx] = contract_up(ctx, mx)
        def append(s, v): s.arr.ptr.m.n = n + 1; s.arr.ptr.m.store(s.len, v); s.len = s.len + 1     # contract of List.append (C12)
        def pop(s, i=-1):                                                                        # contract of List.pop() (C12)
            if cfe.t(s.len == 0): raise IndexError()
            s.len = s.len - 1; return sel(s.arr.ptr.m.arr, s.len)
        h.__class__ = type('L', (L.List,), {'append': append, 'pop': pop})
        heapify = op in ('heapify', '_heapify_max')
        if not heapify: ctx.assume(order(A, n, 0, mx))
        root = lambda a, nn: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nn), le(mx)(sel(a, 0), sel(a, k))), patterns=[sel(a, k)])
        if not heapify: ctx.assume(root(A, n))                # lemma proved by the root task
        loops = {}
        if heapify:
            ctx.assume(PERM(A)); loops[(op, 0)] = Loop(lambda l: {'order below': order(m.arr, n, l.it.i + 1, mx), 'range': z3.And(l.it.i >= -1, l.it.i < n, z3.Or(l.it.i < n / 2)), 'same elements': PERM(m.arr)}, lambda l: l.it.i + 1, mods=lambda l: [m])
        prep(ctx, L, loops, False, op)
        f = L.env[op]; args = (h, item) if op in ('heappush', 'heapreplace', '_heapreplace_max', 'heappushpop') else (h,)
        try: r = f(*args)
        except IndexError: ctx.prove(n == 0, 'an error is raised only for an empty heap', op); ctx.prove(h.len == 0, 'the heap stays empty', op); ctx.cover('raises'); return
        B = m.arr; ln = {'heappush': n + 1, 'heappop': n - 1, '_heappop_max': n - 1}.get(op, n); ch = ctx.extra.get('perm', [])
        ctx.prove(h.len == ln, 'the heap has the expected size', op); ctx.prove(order(B, ln, 0, mx), 'heap order holds', op); ctx.cover('returns')
        if heapify: ctx.prove(PERM(B), 'the heap holds the same elements', op); return
        # the multiset: the array given to the sift routine is the old one with exactly the expected cells changed
        if len(ch) > 1: raise Unsupported('more than one sift')
        src = ch[0][0] if ch else B
        def same(f_): ctx.prove(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), sel(src, k) == f_(k)), patterns=[sel(src, k)]), 'the heap gains and loses exactly the expected elements', op)
        if op == 'heappush': same(lambda q: z3.If(q == n, item, sel(A, q)))
        elif op in ('heappop', '_heappop_max'): same(lambda q: z3.If(q == 0, sel(A, n - 1), sel(A, q))); ctx.prove(r == sel(A, 0), 'the root is returned', op)
        elif op in ('heapreplace', '_heapreplace_max'): ctx.prove(n > 0, 'an empty heap is rejected', op); same(lambda q: z3.If(q == 0, item, sel(A, q))); ctx.prove(r == sel(A, 0), 'the root is returned', op)
        else:
            took = z3.And(n > 0, sel(A, 0) < item); same(lambda q: z3.If(z3.And(q == 0, took), item, sel(A, q))); ctx.prove(r == z3.If(took, sel(A, 0), item), 'the smaller of the item and the root is returned', op)
    core.explore(task, go)
# ---- deque ----
B64 = z3.BitVecSort(64)
DM = ('appendleft', 'append', 'popleft', 'pop', 'clear', '__len__', '__bool__', '__getitem__', '_double_cap', '_check_not_empty', '_idx_check', 'left', '__iter__', 'maxlen', '__contains__', '__init__')
def p_deque(task, op):
    L = cstd.core_env(); cls = L.cls('collections.codon', 'deque', only=DM); task.functions |= L.used
    def go(ctx):
        cap = ctx.fresh_bv('cap', 64); hd, tl, mxl, x, g = (ctx.fresh_bv(q, 64) for q in ('head', 'tail', 'maxlen', 'x', 'g'))
        ctx.assume(z3.And(cap >= 1, cap <= 1 << 40, cap & (cap - 1) == 0, hd >= 0, hd < cap, tl >= 0, tl < cap, z3.Or(mxl == -1, z3.And(mxl >= 0, mxl <= cap)))); n = (tl - hd) & (cap - 1); ctx.assume(z3.Or(mxl == -1, n <= mxl))
        for q, v in (('cap', cap), ('head', hd), ('tail', tl), ('maxlen', mxl)): ctx.input(q, v)
        m = Mem(cap, None, z3.Const('arr', z3.ArraySort(B64, B64))); A = m.arr
        d = cfe.mkraw(cls, {'_arr': L.Array(Ptr(m), cap), '_head': hd, '_tail': tl, '_maxlen': mxl}); ctx.input('length', n)
        elem = lambda i: sel(A, (hd + i) & (cap - 1))
        q = ctx.fresh_bv('q', 64)               # an arbitrary position
        rt = cfe.use(cfe.RT(ctx, loops={})); rt.who = 'deque.' + op
        dbl = {}
        if op != '_double_cap':
            def double(self):                   # contract of _double_cap, proved by its own task
                c0, h0, m0 = self._arr.len, self._head, self._arr.ptr.m; cfe.prove(self._head == self._tail, 'the ring is doubled only when it is full')
                m1 = Mem(c0 * 2, None, z3.Const(ctx.fresh_name('arr2'), m0.arr.sort())); kk = z3.BitVec('kk', 64)
                ctx.assume(z3.ForAll([kk], z3.Implies(z3.And(0 <= kk, kk < c0), sel(m1.arr, kk) == sel(m0.arr, (h0 + kk) & (c0 - 1))), patterns=[sel(m1.arr, kk)])); self._arr = L.Array(Ptr(m1), c0 * 2); self._head = z3.BitVecVal(0, 64); self._tail = c0
            d.__class__ = type('deque', (cls,), {'_double_cap': double})
        def state():
            h, t_, c_, a = d._head, d._tail, d._arr.len, d._arr.ptr.m.arr; h, t_ = (z3.BitVecVal(v, 64) if type(v) is int else v for v in (h, t_))
            return (t_ - h) & (c_ - 1), (lambda i: sel(a, (h + i) & (c_ - 1))), z3.And(h >= 0, h < c_, t_ >= 0, t_ < c_, c_ >= 1, c_ & (c_ - 1) == 0)
        def post(ln, f):
            l2, e2, wf = state(); ctx.prove(wf, 'the ring stays well formed', rt.who); ctx.prove(l2 == ln, 'the deque has the expected length', rt.who); ctx.prove(z3.Implies(z3.And(q >= 0, q < ln), e2(q) == f(q)), 'every element is the expected one', rt.who); ctx.cover('returns')
        full = z3.And(mxl >= 0, n == mxl)
        if op == '_double_cap':
            raise Unsupported('separate task')
        if op == 'append': d.append(x); post(z3.If(full, n, n + 1), lambda i: z3.If(full, z3.If(i == n - 1, x, elem(i + 1)), z3.If(i == n, x, elem(i))))
        elif op == 'appendleft': d.appendleft(x); post(z3.If(full, n, n + 1), lambda i: z3.If(i == 0, x, elem(i - 1)))
        elif op in ('pop', 'popleft'):
            try: r = getattr(d, op)()
            except IndexError: ctx.prove(n == 0, 'an error is raised only for an empty deque', rt.who); post(n, elem); return
            ctx.prove(n > 0, 'an empty deque is rejected', rt.who); ctx.prove(r == (elem(n - 1) if op == 'pop' else elem(z3.BitVecVal(0, 64))), 'the end element is returned', rt.who); post(n - 1, elem if op == 'pop' else lambda i: elem(i + 1))
        elif op == 'clear': d.clear(); post(z3.BitVecVal(0, 64), elem)
        elif op == '__len__': ctx.prove(d.__len__() == n, 'length', rt.who); post(n, elem)
        elif op == '__bool__': ctx.prove(cfe.t(d.__bool__()) == (n != 0), 'truth value', rt.who); post(n, elem)
        elif op == 'left':
            try: r = d.left
            except IndexError: ctx.prove(n == 0, 'an error is raised only for an empty deque', rt.who); return
            ctx.prove(z3.And(n > 0, r == elem(z3.BitVecVal(0, 64))), 'the leftmost element', rt.who); post(n, elem)
        elif op == '__getitem__':
            try: r = d[g]
            except IndexError: ctx.prove(z3.Or(g >= n, g < -n), 'an error is raised only for an index out of range', rt.who); ctx.cover('raises'); return
            ctx.prove(z3.And(g < n, g >= -n), 'an index out of range is rejected', rt.who); ctx.prove(r == elem(z3.If(g < 0, g + n, g)), 'the element at the index', rt.who); post(n, elem)
    core.explore(task, go)
def p_double(task):
    L = cstd.core_env(); cls = L.cls('collections.codon', 'deque', only=DM); task.functions |= L.used
    def go(ctx):
        cap, hd = ctx.fresh_int('cap'), ctx.fresh_int('head'); ctx.assume(z3.And(cap >= 1, cap <= 1 << 40, hd >= 0, hd < cap)); m = Mem.sym(ctx, 'arr', cap); A = m.arr
        d = cfe.mkraw(cls, {'_arr': L.Array(Ptr(m), cap), '_head': hd, '_tail': hd, '_maxlen': -1}); W = lambda l: l.new_arr.ptr.m.arr
        inv0 = lambda l: {'copied': z3.And(0 <= l.it.i, l.it.i <= cap - hd, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.it.i), sel(W(l), k) == sel(A, hd + k)), patterns=[sel(W(l), k)]))}
        inv1 = lambda l: {'copied': z3.And(0 <= l.it.i, l.it.i <= hd, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cap - hd), sel(W(l), k) == sel(A, hd + k)), patterns=[sel(W(l), k)]), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < l.it.i), sel(W(l), k + cap - hd) == sel(A, k)), patterns=[sel(A, k)]))}
        cfe.use(cfe.RT(ctx, loops={('deque._double_cap', i): Loop(v, lambda l, i=i: (cap - hd if i == 0 else hd) - l.it.i, mods=lambda l: [l.new_arr.ptr.m]) for i, v in enumerate((inv0, inv1))}, exact=True)).who = 'deque._double_cap'
        d._double_cap(); B = d._arr.ptr.m.arr; q = ctx.fresh_int('q')
        ctx.prove(z3.And(d._head == 0, d._tail == cap, d._arr.len == 2 * cap), 'the ring is twice as large and starts at 0', 'deque._double_cap')
        ctx.prove(z3.Implies(z3.And(0 <= q, q < cap), z3.And(sel(A, q - (cap - hd)) == sel(A, q - (cap - hd)), sel(B, q) == sel(A, z3.If(q < cap - hd, hd + q, q - (cap - hd))))), 'the elements keep their order', 'deque._double_cap'); ctx.cover('returns')
    core.explore(task, go)
DEQ = ('append', 'appendleft', 'pop', 'popleft', 'clear', '__len__', '__bool__', 'left', '__getitem__')
HEAP = ('heappush', 'heappop', 'heapreplace', 'heappushpop', 'heapify', '_heappop_max', '_heapreplace_max', '_heapify_max')
def tasks(tier):
    out = [T('%s %s%s' % (f, m, ' python numerics' if py else ''), p_bisect, (f, py, m), unit=f) for f in ('bisect_left', 'bisect_right') for m in ('all', 'low', 'range') for py in (False, True)]
    out += [T(f, p_insort, (f,), unit=f) for f in ('insort_left', 'insort_right')]
    for mx in (False, True): out += [T('siftdown%s' % ('_max' * mx), p_siftdown, (mx,), unit='_siftdown'), T('siftup%s' % ('_max' * mx), p_siftup, (mx,), unit='_siftup'), T('root lemma%s' % (' max' * mx), p_root, (mx,), unit='heap')]
    return out + [T(o, p_heapop, (o,), unit=o) for o in HEAP] + [T('deque.' + o, p_deque, (o,), unit='deque.' + o) for o in DEQ] + [T('deque._double_cap', p_double, (), unit='deque._double_cap')]
# ---- concrete histories ----
def attempt(f):
    cfe.CUR.budget = 200000
    try: return f()
    except UB as e: return 'undefined behaviour: %s' % e
    except (IndexError, ValueError, AssertionError) as e: return type(e).__name__
def f_bisect(rep):
    L = cstd.core_env(); L.funcs('bisect.codon', 'bisect_left', 'bisect_right', 'insort_left', 'insort_right'); r = random.Random(rep.seed)
    for py in (False, True):
        cfe.use(cfe.RT(py=py))
        for n in range(0, 9):
            for _ in range(12):
                xs = sorted(r.randrange(5) for _ in range(n)); l = cstd.mklist(L, xs)
                for x in range(-1, 6):
                    for lo, hi in [(0, None)] + [(a, b) for a in range(-1, n + 1) for b in range(max(a, 0), n + 1)][::3]:
                        for f in ('bisect_left', 'bisect_right'):
                            want = attempt(lambda: getattr(bisect, f)(xs, x, lo, hi)); got = attempt(lambda: L.env[f](l, x, lo, hi)); rep.check(got == want, f, '%s(%s, %d, %d, %s) = %s, expected %s' % (f, xs, x, lo, hi, got, want))
                    for f in ('insort_left', 'insort_right'):
                        tag = cstd.mklist(L, [(v, i) for i, v in enumerate(xs)]); y = cstd.mklist(L, xs, r.randrange(2)); got = attempt(lambda: L.env[f](y, x) or cstd.pylist(y)); rep.check(got == sorted(xs + [x]), f, '%s(%s, %d) leaves %s' % (f, xs, x, got))
def okheap(xs, mx=False): return all((xs[(i - 1) // 2] >= xs[i]) if mx else (xs[(i - 1) // 2] <= xs[i]) for i in range(1, len(xs)))
def f_heap(rep, part):
    L = cstd.core_env(); L.funcs('heapq.codon', '_siftdown', '_siftup', '_siftdown_max', '_siftup_max', 'heappush', 'heappop', 'heapreplace', 'heappushpop', 'heapify', '_heappop_max', '_heapreplace_max', '_heapify_max')
    r = random.Random(rep.seed * 7 + part); cfe.use(cfe.RT()); E = L.env
    for it in range(700 if rep.tier == 'quick' else 20000):
        n = r.randrange(0, 24); xs = [r.randrange(r.choice((3, 8, 100))) for _ in range(n)]; mx = r.random() < .3; s = '_max' if mx else ''; h = cstd.mklist(L, xs, r.randrange(3))
        hist = ['%s(%s)' % ('_heapify_max' if mx else 'heapify', xs)]; bag = sorted(xs); e = attempt(lambda: E['_heapify_max' if mx else 'heapify'](h))
        for step in range(8):
            cur = cstd.pylist(h) if e is None or not isinstance(e, str) else None
            if cur is None or not okheap(cur, mx) or sorted(cur) != bag: rep.fail('heap:' + hist[-1].split('(')[0], '%s: %s, heap %s, expected elements %s' % ('; '.join(hist), e, cur, bag)); break
            rep.case('; '.join(hist)); x = r.randrange(10); op = r.choice(['_heappop_max', '_heapreplace_max'] if mx else ['heappush', 'heappop', 'heapreplace', 'heappushpop']); hist.append('%s(%s)' % (op, x if op not in ('heappop', '_heappop_max') else ''))
            if op == 'heappush': want = None; nb = sorted(bag + [x])
            elif op in ('heappop', '_heappop_max'): want = (bag[-1] if mx else bag[0]) if bag else 'IndexError'; nb = (bag[:-1] if mx else bag[1:])
            elif op in ('heapreplace', '_heapreplace_max'): want = (bag[-1] if mx else bag[0]) if bag else 'IndexError'; nb = sorted((bag[:-1] if mx else bag[1:]) + [x]) if bag else []
            else: want = min([x] + bag); nb = sorted(bag + [x])[1:]
            e = attempt(lambda: E[op](h, x) if op not in ('heappop', '_heappop_max') else E[op](h)); bag = nb
            if e != want: rep.fail('heap:' + op, '%s returned %s, expected %s' % ('; '.join(hist), e, want)); break
            e = None
def f_deque(rep, part):
    L = cstd.core_env(); cls = L.cls('collections.codon', 'deque', skip=('__deepcopy__', '__repr__', '__copy__', 'copy')); r = random.Random(rep.seed * 13 + part); cfe.use(cfe.RT())
    for it in range(250 if rep.tier == 'quick' else 6000):
        ml = r.choice((None, None, 0, 1, 2, 3, 4, 7, 8, 16)); hist = ['deque(maxlen=%s)' % ml]; d = cls(ml) if ml is not None else cls(); q = collections.deque(maxlen=ml); bias = r.random()
        for step in range(r.choice((20, 60, 120))):
            op = r.choice(('append', 'appendleft')) if r.random() < .35 + .4 * bias else r.choice(('pop', 'popleft', 'get', 'left', 'len', 'in')) if r.random() < .97 else 'clear'; x = r.randrange(6)
            g = r.randrange(-3 - len(q), 3 + len(q)); arg = (x,) if op in ('append', 'appendleft') else ()
            hist.append('%s%s' % (op, arg or (g if op == 'get' else '')))
            f = {'get': lambda o: o[g], 'left': lambda o: o[0] if o is q else o.left, 'len': lambda o: len(o), 'in': lambda o: (x in o)}.get(op)
            want = attempt(lambda: f(q)) if f else attempt(lambda: getattr(q, op)(*arg)); got = attempt(lambda: (cfe.len_(d) if op == 'len' else cfe.t(d.__contains__(x)) if op == 'in' else f(d))) if f else attempt(lambda: getattr(d, op)(*arg))
            now = attempt(lambda: list(d.__iter__()))
            if got != want or now != list(q): rep.fail('deque:' + op + (':maxlen %s' % ml if ml == 0 else ''), '%s -> %s contents %s, expected %s contents %s' % ('; '.join(hist[-30:]), got, now, want, list(q))); break
            rep.case(hist[-1])
def finders(tier): return [T('bisect', f_bisect)] + [T('heap/%d' % i, f_heap, (i,), timeout=600) for i in range(3)] + [T('deque/%d' % i, f_deque, (i,), timeout=600) for i in range(3)]
