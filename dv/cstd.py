"""The Codon core classes (Slice, Array, List) built from /repo/stdlib for execution by dv/cfe.py, concrete or symbolic.
Memory is element-granular: gc.sizeof(T) is 1, as_byte() is the identity; gc.realloc releases the old block (Boehm's GC_realloc
frees a block it had to move), so a later access through an old pointer is undefined behaviour."""
import z3
import cfe, core
from cfe import Library, Mem, Ptr, UB, UNDEF, Unsupported, t, cmp, bin_, prove, concrete, sym
TY = 'internal/types/'
def as_byte(p): return p
Ptr.as_byte = as_byte; Ptr.__raw__ = lambda s: s
def block(p, n): return p.m
def move(d, s, n, overlap):
    if not sym(n) and (d.m is None or s.m is None):
        if concrete(n) != 0: raise UB('copy through a null pointer')
        return
    if d.m is not None and d.m.cells is not None:
        n = concrete(n); do, so = concrete(d.o), concrete(s.o)
        if n < 0: raise UB('copy of a negative size')
        if n == 0: return
        for o, m in ((do, d.m), (so, s.m)):
            if not (0 <= o and o + n <= len(m.cells)): raise UB('copy outside a block')
        if not overlap and d.m is s.m and do < so + n and so < do + n and do != so: raise UB('memcpy of overlapping ranges')
        d.m.cells[do:do + n] = s.m.cells[so:so + n]; return
    # contract of memmove / memcpy over symbolic blocks
    ctx = cfe.CUR.ctx
    prove(n >= 0, 'copied size is not negative')
    for p, w in ((d, 'destination'), (s, 'source')): prove(z3.Or(n == 0, z3.And(p.o >= 0, p.o + n <= p.m.n)), '%s of a copy lies inside its block' % w)
    if not overlap and d.m is s.m: prove(z3.Or(n == 0, d.o + n <= s.o, s.o + n <= d.o), 'memcpy ranges are disjoint')
    old, src, k = d.m.arr, s.m.arr, z3.Int('k')
    new = z3.Const(ctx.fresh_name('moved'), old.sort()); d.m.arr = new
    ctx.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(k >= d.o, k < d.o + n), z3.Select(src, k - d.o + s.o), z3.Select(old, k)), patterns=[z3.Select(new, k)]))
class StrNS:
    """str.memcpy / str.memmove as a name space; also the type str"""
    @staticmethod
    def memcpy(d, s, n): move(d, s, n, False)
    @staticmethod
    def memmove(d, s, n): move(d, s, n, True)
    def __call__(s, x=''): return x if type(x) is str else ''
class Gc:
    @staticmethod
    def sizeof(T): return 1
    @staticmethod
    def realloc(p, n, old):
        m = p.m
        if not sym(n) and (m is None or m.cells is not None):
            n = concrete(n)
            if n < 0: raise UB('negative allocation')
            q = Mem(n, [UNDEF] * n)
            if m is not None:
                k = min(n, len(m.cells)); q.cells[:k] = m.cells[:k]; m.cells = FREED
            return Ptr(q)
        prove(n >= 0, 'allocation size is not negative')
        q = Mem.sym(cfe.CUR.ctx, 'grown', n, m.arr.sort().range(), m.arr.sort().domain()); i = z3.Const('k', m.arr.sort().domain())
        cfe.CUR.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, i < m.n), z3.Select(q.arr, i) == z3.Select(m.arr, i)), patterns=[z3.Select(q.arr, i)])); return Ptr(q)      # the first min(old, n) elements are kept; the rest is unspecified
class Freed(list):
    def __getitem__(s, i): raise UB('access to a block released by realloc')
    __setitem__ = __getitem__
    def __len__(s): return 1 << 50
FREED = Freed()
def alloc(n=None):
    if isinstance(n, Ptr): return n
    if n is None: return Ptr(None)
    if sym(n) or cfe.CUR.symmem:
        prove(n >= 0, 'allocation size is not negative'); return Ptr(Mem.sym(cfe.CUR.ctx, 'new', n))
    n = concrete(n)
    if n < 0 or n > 1 << 32: raise UB('allocation of %d elements' % n)
    return Ptr(Mem(n, [UNDEF] * n), 0)
cfe.PtrT = alloc
Ptr.__class_getitem__ = classmethod(lambda c, k: alloc)
def core_env():
    L = Library({'T': cfe.Generic('T'), 'U': cfe.Generic('U'), 'V': cfe.Generic('V'), 'S': cfe.Generic('S'), 'gc': Gc, 'sizeof': Gc.sizeof, 'str': StrNS(), 'type': cfe.Generic('type')})
    class Array:
        def __init__(s, p, n=None):
            if n is None: s.ptr, s.len = alloc(p), p
            else: s.ptr, s.len = p, n
        def __class_getitem__(c, k): return c
    arr = L.src(TY + 'array.codon')
    for c in arr.classes:
        for m in c.methods:
            if m.llvm or m.name in ('__new__', '__deepcopy__'): continue
            setattr(Array, m.name, L.code(m))
    L.env['Array'] = Array
    sl = L.cls(TY + 'slice.codon', 'Slice', skip=('__new__', '__repr__'))
    def mk(a, b, c): return cfe.mkraw(sl, {'start': a, 'stop': b, 'step': c, '_fields': ()})
    def __init__(self, a=None, b=None, c=None): pass
    L.env['_slice'] = mk; L.slice = mk; cfe.MKSLICE[0] = mk
    sl.py = lambda s: slice(s.start, s.stop, s.step)
    L.env['Slice'] = sl
    L.env.setdefault('int', cfe.INT)
    # `T is int` tests inside adjust_indices are static: the operands here are always int
    L.env['T'] = L.env['U'] = L.env['V'] = cfe.INT
    L.List = L.cls(TY + 'collections/list.codon', 'List', skip=('__repr__', '__hash__', '__deepcopy__'))
    L.List.is_list = True
    L.List.__raw__ = lambda s: s.arr.ptr if False else id(s)
    L.env['List'] = L.List; L.Array = Array
    return L
def mklist(L, xs, extra=0):
    """concrete list with the given spare capacity"""
    m = Mem(len(xs) + extra, list(xs) + [UNDEF] * extra)
    return cfe.mkraw(L.List, {'arr': L.Array(Ptr(m), len(xs) + extra), 'len': len(xs)})
def pylist(l): return [l.arr.ptr.m.cells[concrete(l.arr.ptr.o) + i] for i in range(concrete(l.len))]
def symlist(L, ctx, name, sort=None, cap=None):
    """list of any length up to 2^58 in a block of any capacity"""
    n = ctx.fresh_int(name + '_len'); c = ctx.fresh_int(name + '_cap'); ctx.assume(z3.And(n >= 0, n <= c, c < 1 << 58)); ctx.input(name + ' length', n)
    m = Mem.sym(ctx, name, c, sort)
    return cfe.mkraw(L.List, {'arr': L.Array(Ptr(m, z3.IntVal(0) if False else 0), c), 'len': n})
