"""Front end for Codon library source (/repo/stdlib/**/*.codon), the shallow way.

Every run reads the .codon text, takes the functions named by a check (dv/cparse.py), parses their bodies with Python's parser
(the subset of Codon used here is syntactically Python) and rewrites each operator, branch and loop head into a call of the
run-time below.  Executing the rewritten code on concrete values is concrete execution of the library function; executing it on
symbolic values (z3 terms) under a core.Ctx explores every path, and a loop that has a specification is cut at its head:
invariant proved on entry, everything the loop assigns havocked, invariant assumed, one iteration executed, invariant and
decrease of the variant proved again.

Extraction drops: type annotations (used for overload choice only), @-attributes, documentation strings, exception messages.
Semantics given to the scalar operators is that of dv/numspec.py: 64-bit wrapping integers; in C numerics // and % truncate and a
zero divisor is undefined (an obligation), in Python numerics they floor and raise.
"""
import ast, os, re, types as pytypes, functools
import z3
import cparse, core, llbuild
from core import PathEnd, Unsupported
STDLIB = os.path.join(llbuild.REPO, 'stdlib')
M63, M64 = 1 << 63, 1 << 64
class UB(Exception): pass                       # undefined behaviour reached in a concrete execution
class Cut(Exception): pass
class RT:
    """state of one execution"""
    def __init__(s, ctx=None, py=False, loops=None, exact=False, budget=None): s.ctx = ctx; s.py = py; s.loops = loops or {}; s.exact = exact; s.budget = budget; s.who = ''; s.seen = set(); s.symmem = False
CUR = RT()
def use(rt):
    global CUR; CUR = rt; return rt
def wrap(x): return ((x + M63) & (M64 - 1)) - M63
sym = z3.is_expr
def isint(x): return type(x) is int or (sym(x) and (x.sort_kind() if False else x.sort().kind()) in (z3.Z3_BV_SORT, z3.Z3_INT_SORT))
def prove(g, what):
    if isinstance(g, bool):
        if CUR.ctx: CUR.ctx.prove(g, what, CUR.who)
        elif not g: raise UB(what)
    else: CUR.ctx.prove(g, what, CUR.who)
def t(c):
    """truth value of a condition: branches when symbolic"""
    k = type(c)
    if k is bool: return c
    if c is None: return False
    if sym(c):
        if not z3.is_bool(c): c = c != 0
        return CUR.ctx.branch(c)
    if k is int or k is float: return c != 0
    if k in (str, list, tuple, bytes): return len(c) > 0
    if k is WI: return t(c != 0)
    if hasattr(c, '__bool__'): return t(c.__bool__()) if not isinstance(c, type) else True
    if hasattr(c, '__len__'): return t(cmp('>', c.__len__(), 0))
    return True
def not_(c):
    if sym(c): return z3.Not(c if z3.is_bool(c) else c != 0)
    return not t(c)
def inr(r): return z3.And(r >= -M63, r < M63)
class WI:
    """fixed-width integer (i8 .. u64, wider): value kept as a Python int in [0, 2^w) or a bit vector of width w"""
    __slots__ = ('v', 'w', 's')
    def __init__(s, v, w, sg): s.w = w; s.s = sg; s.v = v & ((1 << w) - 1) if type(v) is int else v
    def val(s): return s.v if not s.s or type(s.v) is not int or s.v < 1 << (s.w - 1) else s.v - (1 << s.w)
    def __repr__(s): return '%s%d(%s)' % ('i' if s.s else 'u', s.w, s.val())
    def __hash__(s): return hash((s.v, s.w))
    def __eq__(s, o): return cmp('==', s, o)
    def __ne__(s, o): return cmp('!=', s, o)
    def __int__(s): return s.val()
    def __index__(s): return s.val()
def ext(x, w, sg):
    n = x.size(); return x if n == w else z3.Extract(w - 1, 0, x) if n > w else (z3.SignExt if sg else z3.ZeroExt)(w - n, x)
def cast(x, w, sg):
    """conversion between integer widths"""
    if isinstance(x, WI): a, s = (x.val(), None) if type(x.v) is int else (x.v, x.s)
    elif type(x) is bool: a, s = int(x), None
    elif type(x) is int: a, s = x, None
    elif type(x) is float: a, s = int(x), None
    elif z3.is_bool(x): return WI(z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w)), w, sg)
    else: a, s = x, True
    return WI(a if s is None else ext(a, w, s), w, sg)
def toint(x):
    if type(x) is int: return x
    if type(x) is bool: return int(x)
    if isinstance(x, WI): return wrap(x.val()) if type(x.v) is int else ext(x.v, 64, x.s)
    if type(x) is float: return int(x)
    if type(x) is str: return int(x)
    if sym(x):
        if z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0)) if CUR.exact else z3.If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        return x
    if hasattr(x, '__int__'): return x.__int__()
    raise Unsupported('int(%r)' % (x,))
def wi(op, a, b):
    if not isinstance(a, WI): a = cast(a, b.w, b.s)
    if not isinstance(b, WI): b = cast(b, a.w, a.s)
    if (a.w, a.s) != (b.w, b.s): raise Unsupported('mixed widths')
    w, sg = a.w, a.s
    if type(a.v) is int and type(b.v) is int:
        x, y = a.val(), b.val()
        if op in ('//', '%') and y == 0:
            if CUR.py: raise ZeroDivisionError()
            raise UB('division by zero')
        if op in ('<<', '>>') and not 0 <= y < w: raise UB('shift amount')
        if op in ('//', '%'): r = divint(op, x, y)
        else: r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
        return WI(r, w, sg)
    x, y = (z3.BitVecVal(q.v, w) if type(q.v) is int else q.v for q in (a, b))
    if op in ('//', '%'): prove(y != 0, 'divisor is not zero')
    if op in ('<<', '>>'): prove(z3.ULT(y, w), 'shift amount is below the width')
    if op == '//' and sg: r = x / y
    elif op == '%' and sg: r = z3.SRem(x, y)
    else: r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y if sg else z3.LShR(x, y), '//': lambda: z3.UDiv(x, y), '%': lambda: z3.URem(x, y)}[op]()
    return WI(r, w, sg)
def divint(op, x, y):
    if CUR.py: return x // y if op == '//' else x % y
    q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
    return q if op == '//' else x - q * y
def ipow(a, n):
    if n < 0: return {1: 1, -1: -1 if n & 1 else 1}.get(a, 0)
    return pow(a, n, M64)
def bin_(op, a, b):
    ta, tb = type(a), type(b)
    if ta is bool and tb in (int, bool) and op not in '&|^': a = int(a); ta = int
    if tb is bool and ta is int: b = int(b); tb = int
    if ta is int and tb is int:
        if CUR.budget is not None:
            CUR.budget -= 1
            if CUR.budget < 0: raise UB('does not terminate')
        if op == '+': return wrap(a + b)
        if op == '-': return wrap(a - b)
        if op == '*': return wrap(a * b)
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        if op in ('//', '%'):
            if b == 0:
                if CUR.py: raise ZeroDivisionError()
                raise UB('division by zero')
            if a == -M63 and b == -1: raise UB('INT64_MIN // -1')
            return divint(op, a, b)
        if op in ('<<', '>>'):
            if not 0 <= b < 64: raise UB('shift amount')
            return wrap(a << b) if op == '<<' else a >> b
        if op == '**': return wrap(ipow(a, b))
        if op == '/':
            if b == 0:
                if CUR.py: raise ZeroDivisionError()
                return float('nan') if a == 0 else float('inf') if a > 0 else float('-inf')
            return a / b
    if ta is WI or tb is WI: return wi(op, a, b)
    if ta is float or tb is float:
        if ta in (int, float) and tb in (int, float):
            a, b = float(a), float(b)
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/' and b: return a / b
    if (sym(a) or ta in (int, bool)) and (sym(b) or tb in (int, bool)): return symbin(op, a, b)
    fn = {'+': 'add', '-': 'sub', '*': 'mul', '//': 'floordiv', '%': 'mod', '&': 'and', '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift', '/': 'truediv', '**': 'pow'}[op]
    f = getattr(ta, '__%s__' % fn, None)
    if f: return f(a, b)
    f = getattr(tb, '__r%s__' % fn, None)
    if f: return f(b, a)
    raise Unsupported('%r %s %r' % (type(a), op, type(b)))
def symbin(op, a, b):
    if z3.is_bool(a) if sym(a) else False:
        if op in '&|^' and (type(b) is bool or z3.is_bool(b)): return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a, b)
        a = toint(a)
    if z3.is_bool(b) if sym(b) else False: b = toint(b)
    k = (a if sym(a) else b).sort().kind()
    if k == z3.Z3_BV_SORT:
        w = (a if sym(a) else b).size()
        if type(a) is int: a = z3.BitVecVal(a, w)
        if type(b) is int: b = z3.BitVecVal(b, w)
        if op in ('<<', '>>'): prove(z3.ULT(b, w), 'shift amount is below 64')
        if op in ('//', '%'):
            if CUR.py:
                if t(b == 0): raise ZeroDivisionError()
            else: prove(b != 0, 'divisor is not zero')
            prove(z3.Not(z3.And(a == 1 << (w - 1), b == -1)), 'the quotient is representable')
            r = z3.SRem(a, b)
            if not CUR.py: return a / b if op == '//' else r
            ad = z3.And(r != 0, (r < 0) != (b < 0))
            return z3.If(ad, a / b - 1, a / b) if op == '//' else z3.If(ad, r + b, r)
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
    # mathematical integers: every result is proved to fit 64 bits, so the wrapped value is the exact one
    if op in ('+', '-', '*'):
        r = a + b if op == '+' else a - b if op == '-' else a * b
        if CUR.exact == 'wrap':     # out of range: some other 64-bit value
            w = CUR.ctx.fresh_int('wrapped'); CUR.ctx.assume(z3.And(inr(w), z3.Implies(inr(r), w == r))); return w
        prove(inr(r), 'no overflow in %s' % op); return r
    if op in ('//', '%'):
        if CUR.py:
            if t(b == 0): raise ZeroDivisionError()
        else: prove(b != 0, 'divisor is not zero')
        prove(z3.Not(z3.And(a == -M63, b == -1)) if not (type(b) is int and b != -1) else True, 'the quotient is representable')
        A, B = (z3.IntVal(x) if type(x) is int else x for x in (a, b))
        if CUR.py: q = z3.If(B > 0, A / B, (-A) / (-B)) if not (type(b) is int and b > 0) else A / B
        else:
            ab = (lambda x: z3.If(x >= 0, x, -x)); m = ab(A) / (ab(B) if type(b) is not int else z3.IntVal(abs(b))); q = z3.If((A >= 0) == (B >= 0) if type(b) is not int else (A >= 0 if b > 0 else A < 0), m, -m)
        return q if op == '//' else A - q * B
    if op in ('<<', '>>') and type(b) is int and 0 <= b < 63:
        if op == '>>': return (a if sym(a) else z3.IntVal(a)) / (1 << b)
        r = a * (1 << b); prove(inr(r), 'no overflow in <<'); return r
    if op == '&' and type(b) is int and b >= 0 and (b & (b + 1)) == 0: return a % (b + 1)
    raise Unsupported('%s on mathematical integers' % op)
def un(op, a):
    if op == '-':
        if type(a) is int: return wrap(-a)
        if type(a) is float: return -a
        if isinstance(a, WI): return WI(-a.v, a.w, a.s)
        if sym(a):
            if a.sort().kind() == z3.Z3_INT_SORT: prove(a > -M63, 'no overflow in negation')
            return -a
        return a.__neg__()
    if op == '~':
        if type(a) is int: return ~a
        if isinstance(a, WI): return WI(~a.v, a.w, a.s)
        if sym(a): return -1 - a if a.sort().kind() == z3.Z3_INT_SORT else ~a
        return a.__invert__()
    if op == '+': return a
    raise Unsupported('unary ' + op)
CMPN = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__', '==': '__eq__', '!=': '__ne__'}
def cmp(op, a, b):
    if op in ('is', 'is not'):
        r = a is b if not (a is None or b is None) or not (sym(a) or sym(b)) else False
        return r if op == 'is' else not r
    if op == 'in': return contains(b, a)
    if op == 'not in': return not_(contains(b, a))
    ta, tb = type(a), type(b)
    if ta is WI or tb is WI:
        if ta is not WI: a = cast(a, b.w, b.s)
        if tb is not WI: b = cast(b, a.w, a.s)
        if type(a.v) is int and type(b.v) is int: a, b = a.val(), b.val(); ta = tb = int
        else:
            x, y = (z3.BitVecVal(q.v, q.w) if type(q.v) is int else q.v for q in (a, b))
            return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y if a.s else z3.ULT(x, y), '<=': lambda: x <= y if a.s else z3.ULE(x, y), '>': lambda: x > y if a.s else z3.UGT(x, y), '>=': lambda: x >= y if a.s else z3.UGE(x, y)}[op]()
    if ta in (int, bool, float, str, bytes) and tb in (int, bool, float, str, bytes):
        if CUR.budget is not None:
            CUR.budget -= 1
            if CUR.budget < 0: raise UB('does not terminate')
        return a < b if op == '<' else a <= b if op == '<=' else a > b if op == '>' else a >= b if op == '>=' else a == b if op == '==' else a != b
    if a is None or b is None: return (a is b) == (op == '==')
    if ta is tuple and tb is tuple: return tcmp(op, a, b)
    if sym(a) or sym(b):
        if z3.is_bool(a) if sym(a) else False: b = z3.BoolVal(b) if type(b) is bool else b
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()
    if ta is list and tb is list: return {'==': lambda: len(a) == len(b) and all(t(cmp('==', x, y)) for x, y in zip(a, b)), '!=': lambda: not t(cmp('==', a, b))}[op]()
    f = getattr(ta, CMPN[op], None)
    if f:
        r = f(a, b)
        if r is not NotImplemented: return r
    if op == '!=': return not_(cmp('==', a, b))
    if op == '==': return a is b
    raise Unsupported('%r %s %r' % (ta, op, tb))
def tcmp(op, a, b):
    if op == '==': return len(a) == len(b) and all(t(cmp('==', x, y)) for x, y in zip(a, b))
    if op == '!=': return not tcmp('==', a, b)
    for x, y in zip(a, b):
        if not t(cmp('==', x, y)): return cmp(op, x, y) if op in '<>' else cmp(op[0], x, y)
    return {'<': len(a) < len(b), '>': len(a) > len(b), '<=': len(a) <= len(b), '>=': len(a) >= len(b)}[op]
def contains(c, x):
    if type(c) in (tuple, list):
        return any(t(cmp('==', x, y)) for y in c)
    if type(c) is str: return x in c
    if isinstance(c, range_t): return c.__contains__(x)
    return c.__contains__(x)
def chain(ops, a, *rest):
    for op, f in zip(ops, rest):
        b = f()
        if not t(cmp(op, a, b)): return False
        a = b
    return True
def get(o, i):
    if type(o) in (list, tuple):
        if isinstance(i, slice) or isinstance(i, SliceV): return o[i if isinstance(i, slice) else i.py()]
        i = concrete(i)
        if not -len(o) <= i < len(o): raise IndexError()
        return o[i]
    if isinstance(o, type) and not hasattr(type(o), '__getitem__'):
        return o.__class_getitem__(i) if hasattr(o, '__class_getitem__') else o
    return o[i]
class SliceV:
    __slots__ = ('start', 'stop', 'step')
    def __init__(s, a, b, c): s.start, s.stop, s.step = a, b, c
    def py(s): return slice(s.start, s.stop, s.step)
MKSLICE = [SliceV]
def mkslice(a, b, c): return MKSLICE[0](a, b, c)
def concrete(i):
    if type(i) is int: return i
    if isinstance(i, WI) and type(i.v) is int: return i.val()
    if type(i) is bool: return int(i)
    if sym(i):
        s = z3.simplify(i)
        if z3.is_int_value(s): return s.as_long()
        if z3.is_bv_value(s): return s.as_signed_long()
        raise Unsupported('symbolic index of a concrete sequence')
    return i
def aug(op, o, b):
    f = getattr(type(o), '__i%s__' % {'+': 'add', '-': 'sub', '*': 'mul', '|': 'or', '&': 'and', '^': 'xor'}.get(op, '?'), None)
    return f(o, b) if f and type(o) not in (int,) else bin_(op, o, b)
def augattr(o, n, op, v): setattr(o, n, aug(op, getattr(o, n), v))
def augitem(o, i, op, v): o[i] = aug(op, get(o, i), v)
def len_(x):
    if type(x) in (str, list, tuple, dict, set, bytes): return len(x)
    return x.__len__()
class range_t:
    """built-in contract of range(), proved for the library text by C05"""
    def __init__(s, *a):
        s.start, s.stop, s.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if t(cmp('==', s.step, 0)): raise ValueError()
    def __contains__(s, x): return z3.And(s.start <= x, x < s.stop) if s.step == 1 and sym(x) else x in range(s.start, s.stop, s.step)
    def __len__(s): return len(range(s.start, s.stop, s.step))
    def __reversed__(s): r = range(s.start, s.stop, s.step)[::-1] if not any(map(sym, (s.start, s.stop))) else None; return range_t(r.start, r.stop, r.step) if r is not None else range_t(s.stop - 1, s.start - 1, -1) if s.step == 1 else s.bad()
    def bad(s): raise Unsupported('reversed symbolic range')
    def __iter__(s): return PyIter(s)
def reversed_(x):
    if isinstance(x, range_t): return x.__reversed__()
    return iter(x[::-1]) if type(x) in (list, tuple, str) else x.__reversed__()
class PyIter:
    def __init__(s, r):
        s.rng = r; s.i = r.start if isinstance(r, range_t) else None; s.it = None if s.i is not None else iter(r); s.buf = []
    def more(s):
        if s.i is not None: return cmp('<', s.i, s.rng.stop) if t(cmp('>', s.rng.step, 0)) else cmp('>', s.i, s.rng.stop)
        if not s.buf:
            try: s.buf.append(next(s.it))
            except StopIteration: return False
        return True
    def next(s):
        if s.i is not None:
            v = s.i; n = v + s.rng.step if not (type(v) is int and type(s.rng.step) is int) else v + s.rng.step; s.i = n; return v
        return s.buf.pop()
    def __iter__(s): return s
    def __next__(s):
        if not t(s.more()): raise StopIteration
        return s.next()
def iter_(x):
    if isinstance(x, PyIter): return x
    c = getattr(type(x), 'iter_contract', None)
    if c is not None: return c(x)
    return PyIter(x)
class NoLoop:
    __slots__ = ('n',)
    def __init__(s): s.n = 0
    def enter(s, names, L, it=None): return tuple(L.get(n, UNDEF) for n in names)
    def again(s, L):
        s.n += 1
        if CUR.ctx is not None and s.n > 4000: raise Unsupported('loop without specification did not end')
        if CUR.budget is not None:
            CUR.budget -= 1
            if CUR.budget < 0: raise UB('does not terminate')
        return True
class Undef:
    def __repr__(s): return 'UNDEF'
UNDEF = Undef()
class Loop:
    """specification of one loop: inv(L) -> {name: condition}; var(L) -> integer term (or None); mods(L) -> objects with havoc(ctx); hav: {name: fn(L) -> value} for values that are not plain scalars"""
    def __init__(s, inv, var=None, mods=None, hav=None, snap=None, lemma=None): s.inv = inv; s.var = var; s.mods = mods; s.hav = hav or {}; s.snap = snap; s.lemma = lemma
class NS:
    """locals at a loop head"""
    def __init__(s, d, it): s.__dict__.update(d); s.it = it; s.d = d
    def __getattr__(s, n): raise Unsupported('the loop has no variable %s' % n)
class LoopRun:
    def __init__(s, key, sp): s.key = key; s.sp = sp; s.first = True; s.it = None; s.w = '%s loop %d' % key
    def chk(s, d, what):
        for n, c in s.sp.inv(NS(d, s.it)).items(): prove(c, '%s: %s (%s)' % (s.w, n, what))
    def enter(s, names, L, it=None):
        s.it = it; d = dict(L); c = CUR.ctx
        s.old = dict(d); s.chk(d, 'on entry')
        out = []
        for n in names:
            v = d.get(n, UNDEF); h = s.sp.hav.get(n)
            v = h(NS(d, it)) if h else havoc(v, n, s.w)
            d[n] = v; out.append(v)
        if it is not None and it.i is not None: it.i = havoc(it.i if sym(it.i) else it.rng.stop if sym(it.rng.stop) else it.i, 'it', s.w)
        for o in (s.sp.mods(NS(d, it)) if s.sp.mods else []): o.havoc(c)
        for n, x in s.sp.inv(NS(d, it)).items(): c.assume(x)
        s.v0 = s.sp.var(NS(d, it)) if s.sp.var else None
        s.s0 = s.sp.snap(NS(d, it)) if s.sp.snap else None
        return tuple(out)
    def again(s, L):
        if s.first: s.first = False; return True
        for f in (s.sp.lemma(s.s0, NS(dict(L), s.it)) if s.sp.lemma else []): CUR.ctx.assume(f)
        s.chk(dict(L), 'kept by an iteration')
        if s.sp.var:
            v = s.sp.var(NS(dict(L), s.it)); prove(z3.And(v < s.v0, s.v0 > 0) if sym(v) or sym(s.v0) else v < s.v0, s.w + ': the variant decreases and is positive')
        CUR.ctx.cover(s.w + ' iterates')
        raise PathEnd('loop cut')
def havoc(v, n, w):
    c = CUR.ctx
    if type(v) is bool or (sym(v) and z3.is_bool(v)): return c.fresh_bool('h_' + n)
    if isinstance(v, WI): return WI(c.fresh_bv('h_' + n, v.w), v.w, v.s)
    if sym(v) and v.sort().kind() == z3.Z3_BV_SORT: return c.fresh_bv('h_' + n, v.size())
    if sym(v): return z3.Const(c.fresh_name('h_' + n), v.sort())
    if type(v) is int:
        if CUR.exact:
            x = c.fresh_int('h_' + n); c.assume(inr(x)); return x
        return c.fresh_bv('h_' + n, 64)
    if isinstance(v, Undef): return v
    if v is None: return v
    raise Unsupported('%s: cannot generalise the value of %s (%s)' % (w, n, type(v).__name__))
def loop(key):
    sp = CUR.loops.get(key) if CUR.ctx is not None else None
    CUR.seen.add(key)
    return LoopRun(key, sp) if sp else NoLoop()

# ------------------------------------------------------------------------------------------------ rewriting
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.Div: '/', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}
COPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
def N(x): return ast.Name(x, ast.Load())
def C(f, *a): return ast.Call(N(f), list(a), [])
def K(v): return ast.Constant(v)
def lam(e): return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
class Assigned(ast.NodeVisitor):
    def __init__(s): s.n = []
    def visit_Name(s, x):
        if isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in s.n and not x.id.startswith('_L'): s.n.append(x.id)
    def visit_FunctionDef(s, x): pass
    def visit_Lambda(s, x): pass
    def visit_ListComp(s, x): pass
    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
class Rw(ast.NodeTransformer):
    def __init__(s, qual): s.q = qual; s.k = 0; s.depth = 0
    def visit_BinOp(s, x): s.generic_visit(x); return C('_bin', K(OPS[type(x.op)]), x.left, x.right)
    def visit_UnaryOp(s, x):
        s.generic_visit(x)
        if isinstance(x.op, ast.Not): return C('_not', x.operand)
        if isinstance(x.operand, ast.Constant) and isinstance(x.op, ast.USub): return x
        return C('_un', K({ast.USub: '-', ast.Invert: '~', ast.UAdd: '+'}[type(x.op)]), x.operand)
    def visit_BoolOp(s, x): s.generic_visit(x); x.values = [C('_t', v) for v in x.values]; return x
    def visit_Compare(s, x):
        s.generic_visit(x); ops = [COPS[type(o)] for o in x.ops]
        if len(ops) == 1: return C('_cmp', K(ops[0]), x.left, x.comparators[0])
        return C('_chain', ast.Tuple([K(o) for o in ops], ast.Load()), x.left, *[lam(c) for c in x.comparators])
    def visit_IfExp(s, x): s.generic_visit(x); x.test = C('_t', x.test); return x
    def visit_If(s, x): s.generic_visit(x); x.test = C('_t', x.test); return x
    def visit_Assert(s, x): s.generic_visit(x); x.test = C('_t', x.test); x.msg = None; return x
    def visit_comprehension(s, x): s.generic_visit(x); x.ifs = [C('_t', i) for i in x.ifs]; x.iter = C('_iter', x.iter); return x
    def visit_Subscript(s, x):
        s.generic_visit(x)
        if isinstance(x.slice, ast.Slice): x.slice = C('_slice', *[q or K(None) for q in (x.slice.lower, x.slice.upper, x.slice.step)])
        return C('_get', x.value, x.slice) if isinstance(x.ctx, ast.Load) else x
    def visit_Raise(s, x):
        if isinstance(x.exc, ast.Call) and isinstance(x.exc.func, ast.Name): x.exc = ast.Call(x.exc.func, [], []); x.cause = None; return x
        return s.generic_visit(x)
    def visit_AnnAssign(s, x):
        s.generic_visit(x)
        return ast.Assign([x.target], x.value) if x.value is not None else ast.Pass()
    def visit_AugAssign(s, x):
        op = K(OPS[type(x.op)]); tg = x.target; v = s.visit(x.value)
        if isinstance(tg, ast.Name): return ast.Assign([tg], C('_aug', op, N(tg.id), v))
        if isinstance(tg, ast.Attribute): return ast.Expr(C('_augattr', s.visit(tg.value), K(tg.attr), op, v))
        return ast.Expr(C('_augitem', s.visit(tg.value), s.visit(tg.slice), op, v))
    def loop(s, x, test, pre, first):
        k = s.k; s.k += 1; L = '_L%d' % k
        a = Assigned()
        for q in x.body: a.visit(q)
        if isinstance(x, ast.For): a.visit(x.target)
        else: a.visit(x.test)
        names = a.n
        body = [s.visit(q) for q in x.body]; body = [y for q in body for y in (q if isinstance(q, list) else [q]) if y is not None]
        orelse = [s.visit(q) for q in x.orelse]; orelse = [y for q in orelse for y in (q if isinstance(q, list) else [q])]
        out = pre(L) + [ast.Assign([ast.Name(L, ast.Store())], C('_loop', ast.Tuple([K(s.q), K(k)], ast.Load())))]
        args = [ast.Tuple([K(n) for n in names], ast.Load()), C('locals')] + ([N(L + 'i')] if isinstance(x, ast.For) else [])
        call = ast.Call(ast.Attribute(N(L), 'enter', ast.Load()), args, [])
        out.append(ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], call) if names else ast.Expr(call))
        again = ast.Call(ast.Attribute(N(L), 'again', ast.Load()), [C('locals')], [])
        return out + [ast.While(ast.BoolOp(ast.And(), [again, C('_t', test(L))]), first(L) + body, orelse)]
    def visit_While(s, x):
        k = s.k
        r = s.loop(x, lambda L: s.visit(x.test), lambda L: [], lambda L: []); return r
    def visit_For(s, x):
        it = s.visit(x.iter)
        return s.loop(x, lambda L: ast.Call(ast.Attribute(N(L + 'i'), 'more', ast.Load()), [], []), lambda L: [ast.Assign([ast.Name(L + 'i', ast.Store())], C('_iter', it))],
                      lambda L: [ast.Assign([x.target], ast.Call(ast.Attribute(N(L + 'i'), 'next', ast.Load()), [], []))])
    def visit_FunctionDef(s, x):
        x.decorator_list = []; x.returns = None
        for a in x.args.args + x.args.kwonlyargs + x.args.posonlyargs: a.annotation = None
        q, s.q, k, s.k = s.q, s.q + '.' + x.name if s.depth else s.q, s.k, s.k if not s.depth else 0
        s.depth += 1; s.generic_visit(x); s.depth -= 1; s.q, s.k = q, k
        return x
    def visit_JoinedStr(s, x): return K('')
    def visit_ImportFrom(s, x):
        # a local import of the library's own modules: the names are taken from the environment
        return x if any(a.asname or a.name == '*' for a in x.names) else ast.Pass()
    visit_Import = visit_ImportFrom
    def visit_Call(s, x):
        s.generic_visit(x); return x
def UINT(v, n): return WI(v, n, False)
def SINT(v, n): return WI(v, n, True) if n != 64 else v
class IntType:
    """UInt[N], Int[N], u32(..), int(..)"""
    def __init__(s, w=None, sg=True): s.w = w; s.s = sg
    def __getitem__(s, n): return IntType(n, s.s)
    def __call__(s, x=0): return cast(x, s.w, s.s) if s.w else toint(x)
    def __eq__(s, o): return isinstance(o, IntType) and (s.w, s.s) == (o.w, o.s)
    def __hash__(s): return hash((s.w, s.s))
class Generic:
    """a type constructor that is only mentioned"""
    def __init__(s, n): s.n = n
    def __getitem__(s, k): return s
    def __call__(s, *a): return a[0] if a else None
def isinstance_(x, T):
    if isinstance(T, Generic):
        return {'Optional': x is None, 'List': isinstance(x, list) or getattr(x, 'is_list', False)}.get(T.n, False)
    if isinstance(T, IntType): return isint(x) if not T.w else isinstance(x, WI)
    if T is float: return type(x) is float
    if T is str: return type(x) is str
    return isinstance(x, T)
def max_(*a):
    if len(a) == 1: return max(a[0])
    r = a[0]
    for x in a[1:]: r = (z3.If(x > r, x, r) if sym(x) or sym(r) else max(r, x))
    return r
def min_(*a):
    if len(a) == 1: return min(a[0])
    r = a[0]
    for x in a[1:]: r = (z3.If(x < r, x, r) if sym(x) or sym(r) else min(r, x))
    return r
def abs_(x): return (x if t(cmp('>=', x, 0)) else un('-', x)) if not type(x) is float else abs(x)
INT = IntType()
BASE = {'_bin': bin_, '_un': un, '_cmp': cmp, '_chain': chain, '_t': t, '_not': not_, '_get': get, '_slice': mkslice, '_aug': aug, '_augattr': augattr, '_augitem': augitem, '_iter': iter_, '_loop': loop,
        '__UINT__': UINT, '__SINT__': SINT, 'int': INT, 'len': len_, 'range': range_t, 'reversed': reversed_, 'isinstance': isinstance_, 'Optional': Generic('Optional'), 'List': Generic('List'), 'Generator': Generic('Generator'), 'Tuple': Generic('Tuple'),
        'UInt': IntType(None, False), 'Int': IntType(None, True), 'max': max_, 'min': min_, 'abs': abs_, 'compile_error': lambda *a: (_ for _ in ()).throw(Unsupported('compile_error')), 'byte': IntType(8, False)}
for _w in (8, 16, 32, 64, 128): BASE['u%d' % _w] = IntType(_w, False); BASE['i%d' % _w] = IntType(_w, True) if _w != 64 else INT
class Library:
    """functions and classes of one .codon file, rewritten for execution; env is shared with other libraries by `add`"""
    SRC = {}
    def __init__(s, env=None): s.env = dict(BASE); s.env.update(env or {}); s.used = set()
    def src(s, path):
        p = os.path.join(STDLIB, path)
        if p not in Library.SRC: Library.SRC[p] = cparse.Source(p)
        return Library.SRC[p]
    def code(s, fn, qual=None):
        """Fn -> python function"""
        ps = [p for p in fn.params]; hdr = []
        for n, ty, df in ps: hdr.append(n if df is None else '%s=%s' % (n, df))
        body = cparse.fix_syntax(fn.body)
        if not body.strip(): body = 'pass'
        txt = 'def %s(%s):\n%s' % (re.sub(r'\W', '_', fn.name), ', '.join(hdr), '\n'.join('    ' + l for l in body.split('\n')))
        tree = ast.parse(cparse.fix_syntax(txt) if False else txt); f = tree.body[0]
        q = qual or fn.qual
        tree.body[0] = Rw(q).visit(f); ast.fix_missing_locations(tree)
        g = {}; exec(compile(tree, fn.path + ':' + q, 'exec'), s.env, g)
        r = g[f.name]; r.codon = fn; s.used.add('%s:%s' % (os.path.relpath(fn.path, STDLIB), q))
        return r
    def funcs(s, path, *names):
        src = s.src(path)
        for n in names:
            c = src.fns(n)
            if not c: raise Unsupported('%s has no function %s' % (path, n))
            s.env[n] = overload([s.code(f) for f in c]) if len(c) > 1 else s.code(c[0])
        return s
    def all(s, path, skip=()):
        names = []
        for f in s.src(path).funcs:
            if f.name not in names and f.name not in skip and not f.llvm: names.append(f.name)
        for n in names: s.funcs(path, n)
        return s
    def cls(s, path, name, base=object, only=None, skip=(), as_=None):
        """build a Python class from a Codon class (and its extensions in the file)"""
        src = s.src(path); d = {}; ms = {}; fields = []; tup = False
        for c in src.classes:
            if c.name != name: continue
            fields += [f for f in c.fields if f not in fields]; tup |= c.tuple
            for m in c.methods:
                if m.llvm or (only and m.name not in only) or m.name in skip: continue
                ms.setdefault(m.name, []).append(m)
        if not ms and not fields: raise Unsupported('%s has no class %s' % (path, name))
        errs = {}
        for n, l in ms.items():
            fs = []
            for m in l:
                try: fs.append(s.code(m))
                except SyntaxError as e: errs[n] = str(e)
            if not fs: continue
            prop = any('property' in x.decos for x in l); st = not l[0].params or l[0].params[0][0] != 'self'
            f = overload(fs) if len(fs) > 1 or True else fs[0]
            if n == '__new__': d['_news'] = fs; continue
            if n in ('__hash__',): d[n] = f; continue
            d[n] = property(f) if prop else staticmethod(f) if st else f
        d['_fields'] = [f[0] for f in fields]
        def new(cl, *a, **kw):
            if not RAW:
                for f in reversed(d.get('_news', [])):
                    if matches(f, a, kw): return f(*a, **kw)
            o = object.__new__(cl)
            if tup or '__init__' not in d:
                for n, v in zip(d['_fields'], a): setattr(o, n, v)
                for n, v in kw.items(): setattr(o, n, v)
                return o
            return o
        class Meta(type):
            def __call__(cl, *a, **kw):
                o = new(cl, *a, **kw)
                if isinstance(o, cl) and '__init__' in d and not (tup or '_news' in d): o.__init__(*a, **kw)
                return o
            def __getitem__(cl, k): return cl
        if '__eq__' in d and '__hash__' not in d: d['__hash__'] = lambda self: id(self)
        cl = Meta(as_ or name, (base,), {k: v for k, v in d.items() if k != '_fields'} | {'_fields': d['_fields']})
        s.env[as_ or name] = cl
        cl.raw = classmethod(lambda c, **kw: mkraw(c, kw))
        return cl
RAW = []
def mkraw(c, kw):
    o = object.__new__(c)
    for k, v in kw.items(): setattr(o, k, v)
    return o
def tymatch(ty, v, co=False):
    if ty is None: return True
    ty = ty.strip()
    if co and ty.startswith('Generator'): return hasattr(v, '__iter__')
    if ty == 'int': return isint(v) and not (sym(v) and v.sort().kind() == z3.Z3_BV_SORT and v.size() != 64)
    if ty == 'float': return type(v) is float
    if ty == 'bool': return type(v) is bool or (sym(v) and z3.is_bool(v))
    if ty in ('str',): return type(v) is str or getattr(v, 'is_str', False)
    if ty.startswith('Optional'): return v is None or tymatch(ty[9:-1], v, co)
    if ty in ('Slice', 'slice') or ty.startswith('Slice['): return isinstance(v, SliceV) or type(v).__name__ == 'Slice'
    if ty.startswith('List'): return isinstance(v, list) or getattr(v, 'is_list', False) or type(v).__name__ == 'List'
    if ty.startswith('Ptr'): return isinstance(v, Ptr)
    if re.match(r'(UInt|Int|u\d+|i\d+|byte)', ty): return isinstance(v, WI)
    if ty.startswith('Generator'): return hasattr(v, '__next__') or isinstance(v, PyIter)
    if ty.startswith('Tuple'): return isinstance(v, tuple)
    if re.match(r'[A-Z]$|[TUVSK]\d?$', ty): return True
    n = re.match(r'\w+', ty).group()
    return type(v).__name__ == n or not (isint(v) or type(v) in (float, bool, str, list, tuple) or v is None or hasattr(v, '_fields'))
def matches(f, a, kw, co=False):
    ps = f.codon.params
    star = any(p[0].startswith('*') for p in ps)
    if len(a) > len(ps) and not star: return False
    names = [p[0] for p in ps]
    if any(k not in names for k in kw): return False
    for i, (n, ty, df) in enumerate(ps):
        if n.startswith('*'): break
        if i < len(a):
            if n != 'self' and not tymatch(ty, a[i], co): return False
        elif n in kw:
            if not tymatch(ty, kw[n]): return False
        elif df is None: return False
    return True
def overload(fs):
    if len(fs) == 1: return fs[0]
    def call(*a, **kw):
        for f in reversed(fs):
            if matches(f, a, kw): return f(*a, **kw)
        for f in reversed(fs):
            if matches(f, a, kw, True): return f(*[iter_(x) if (ty or '').startswith('Generator') and hasattr(x, '__iter__') else x for x, (n, ty, d) in zip(a, f.codon.params)], **kw)
        raise Unsupported('no overload of %s for %s' % (fs[0].codon.qual, [type(x).__name__ for x in a]))
    call.codon = fs[-1].codon; call.overloads = fs
    return call
# ------------------------------------------------------------------------------------------------ memory
class Mem:
    """a heap block of n elements; concrete: Python list; symbolic: z3 array"""
    def __init__(s, n=None, cells=None, arr=None): s.cells = cells; s.arr = arr; s.n = n
    @staticmethod
    def sym(ctx, name, n, sort=None, ix=None): return Mem(n, None, z3.Const(ctx.fresh_name(name), z3.ArraySort(z3.IntSort() if ix is None else ix, z3.IntSort() if sort is None else sort)))
    def havoc(s, ctx): s.arr = z3.Const(ctx.fresh_name('mem'), s.arr.sort())
    def ok(s, i):
        if s.cells is not None:
            i = concrete(i)
            if not 0 <= i < len(s.cells): raise UB('access outside a block (index %d of %d)' % (i, len(s.cells)))
            return i
        iv = i if sym(i) else i
        prove(z3.And(iv >= 0, iv < s.n), 'access inside the block'); return i
    def load(s, i):
        i = s.ok(i)
        if s.cells is not None:
            v = s.cells[i]
            if v is UNDEF: raise UB('read of an uninitialised element')
            return v
        return z3.Select(s.arr, i)
    def store(s, i, v):
        i = s.ok(i)
        if s.cells is not None: s.cells[i] = v
        else: s.arr = z3.Store(s.arr, i, v)
class Ptr:
    __slots__ = ('m', 'o')
    def __init__(s, m, o=0): s.m = m; s.o = o
    def __class_getitem__(c, k): return PtrT
    def __getitem__(s, i): return s.m.load(bin_('+', s.o, i)) if s.m is not None else s.nul()
    def __setitem__(s, i, v): s.m.store(bin_('+', s.o, i), v) if s.m is not None else s.nul()
    def nul(s): raise UB('null pointer access')
    def __add__(s, i): return Ptr(s.m, bin_('+', s.o, i))
    def __sub__(s, b): return Ptr(s.m, bin_('-', s.o, b)) if not isinstance(b, Ptr) else bin_('-', s.o, b.o)
    def __eq__(s, b): return s.m is b.m and cmp('==', s.o, b.o)
    def __ne__(s, b): return not_(s.__eq__(b))
    def __lt__(s, b): return cmp('<', s.o, b.o)
    def __bool__(s): return s.m is not None
    __hash__ = object.__hash__
def PtrT(n=None):
    if isinstance(n, Ptr): return n
    if n is None: return Ptr(None)
    n = concrete(n)
    if n < 0 or n > 1 << 40: raise UB('allocation of %d elements' % n)
    return Ptr(Mem(n, [UNDEF] * n), 0)
BASE['Ptr'] = Ptr
