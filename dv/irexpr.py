"""Expressions over the real IR: building, reading back and evaluating them against dv/numspec.py."""
import z3
import numspec as ns, llvc
from llvc import Ptr, F, bv
from core import Unsupported
TYPES = ['int', 'float', 'bool', 'byte', 'User', 'str', 'i32', 'f32', 'void']
NAMES1 = ['__pos__', '__neg__', '__invert__', '__abs__', '__int__', '__float__', '__bool__']
NAMES2 = list(ns.ARITH) + list(ns.BITS) + ['__lshift__', '__rshift__'] + list(ns.CMP)

def method_keys():
    """(name, types, result) of every built-in scalar operator plus operators of a user class and look-alikes"""
    out = []
    for n in NAMES1:
        for a in ('int', 'float', 'bool'):
            r = ns.ret(n, [a])
            if r: out.append((n, (a,), r, ns.attrs(n, [a]), True))
        out.append((n, ('User',), {'__int__': 'int', '__float__': 'float', '__bool__': 'bool'}.get(n, 'User'), 0, True))
    for n in NAMES2:
        for a in ('int', 'float', 'bool'):
            for b in ('int', 'float', 'bool'):
                r = ns.ret(n, [a, b])
                if r: out.append((n, (a, b), r, ns.attrs(n, [a, b]), True))
        r = 'bool' if n in ns.CMP else 'User'
        out.append((n, ('User', 'User'), r, 0, True)); out.append((n, ('User', 'int'), r, 0, True)); out.append((n, ('int', 'User'), r, 0, True))
        # plain functions that merely have the operator's name
        if ns.ret(n, ['int', 'int']): out.append((n, ('int', 'int'), ns.ret(n, ['int', 'int']), 0, False))
    out.append(('__neg__', ('int',), 'int', 0, False)); out.append(('__add__', ('i32', 'i32'), 'i32', 3, True)); out.append(('__mul__', ('i32', 'i32'), 'i32', 7, True))
    out.append(('__add__', ('str', 'str'), 'str', 0, True))
    return out

class Ctl:
    """handles to the heap built by boot()"""
    def boot(s, e, passes):
        M = s.M = e.h('h_module')
        s.T = {t: e.h('h_type', M, k) for k, t in enumerate(TYPES)}
        s.tname = {(p.obj, p.off): t for t, p in s.T.items()}
        s.meth = {}; s.fkey = {}
        for k in method_keys():
            n, ts, r, at, m = k
            f = e.h('h_method', M, s.T[ts[0]] if m else 0, e.cstr(n), s.T[r], s.T[ts[0]], s.T[ts[1]] if len(ts) > 1 else 0, at)
            s.meth[(n, ts, m)] = (f, k); s.fkey[(f.obj, f.off)] = k
        s.opq = {}; s.var = {}; s.ofun = {}; s.vkey = {}
        for t in ('int', 'float', 'bool', 'User', 'i32', 'str'):
            for i in range(4):
                f = e.h('h_opaque', M, s.T[t], e.cstr('opaque_%s%d' % (t, i))); s.opq[(t, i)] = f; s.ofun[(f.obj, f.off)] = (t, i)
                v = e.h('h_var', M, s.T[t], e.cstr('v'), 0); s.var[(t, i)] = v; s.vkey[(v.obj, v.off)] = (t, i)
        s.passes = {k: fn(e, M) for k, fn in passes.items()}
        return s

def build(e, c, tr):
    k = tr[0]
    if k == 'const':
        t, v = tr[1], tr[2]
        if t == 'int': return e.h('h_int', c.M, v)
        if t == 'float': return e.h('h_float', c.M, v if isinstance(v, F) else F('double', fp=v) if z3.is_expr(v) else F('double', conc=v))
        if t == 'bool': return e.h('h_bool', c.M, v if isinstance(v, int) else z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if z3.is_bool(v) else v)
        if t == 'str': return e.h('h_str', c.M, e.cstr(v))
        raise Unsupported('literal of type ' + t)
    if k == 'var': return e.h('h_varvalue', c.M, c.var[(tr[1], tr[2])])
    if k == 'opq': return e.h('h_call0', c.M, c.opq[(tr[1], tr[2])])
    if k == 'op':
        f, _ = c.meth[tr[1]]
        a = [build(e, c, x) for x in tr[2]]
        return e.h('h_call%d' % len(a), c.M, f, *a)
    raise AssertionError(k)

def read(e, c, v):
    """real IR value -> tree"""
    v = e.h('h_actual', v)
    k = e.h('h_kind', v)
    if k == 0: return ('const', 'int', bv(e.h('h_ival', v), 64))
    if k == 1: return ('const', 'float', e.h('h_fval', v).fp())
    if k == 2:
        b = e.h('h_bval', v); b = llvc.i2b(b); return ('const', 'bool', z3.BoolVal(b) if isinstance(b, bool) else b)
    if k == 4:
        p = e.h('h_var_of', v)
        if (p.obj, p.off) in c.vkey: return ('var',) + c.vkey[(p.obj, p.off)]
        raise Unsupported('unknown variable in result')
    if k == 5:
        f = e.h('h_callee', v); q = (f.obj, f.off) if isinstance(f, Ptr) else None
        n = e.h('h_nargs', v)
        if q in c.ofun and n == 0: return ('opq',) + c.ofun[q]
        if q in c.fkey:
            key = c.fkey[q]
            if n != len(key[1]): raise Unsupported('argument count')
            a = [read(e, c, e.h('h_front', v))] + ([read(e, c, e.h('h_back', v))] if n == 2 else [])
            return ('op', (key[0], key[1], key[4]), a)
    raise Unsupported('unreadable result (kind %s)' % k)

def typ(c, e, v):
    p = e.h('h_valtype', v)
    return c.tname.get((p.obj, p.off), '?')

def zsort(t): return ns.SORT[t] if t in ns.SORT else z3.DeclareSort(t)
class Val:
    """evaluation of a tree: value term, ordered events, undefinedness"""
    def __init__(s, py, pure=False): s.py = py; s.ev = []; s.undef = []; s.n = {}; s.pure = pure
    def go(s, tr):
        k = tr[0]
        if k == 'const':
            v = tr[2]
            if isinstance(v, F): v = v.fp()
            if isinstance(v, bool): v = z3.BoolVal(v)
            elif isinstance(v, int): v = z3.BitVecVal(v, 64) if tr[1] == 'int' else z3.FPVal(v, ns.F64)
            elif isinstance(v, float): v = z3.FPVal(v, ns.F64)
            return v
        if k == 'var': return z3.Const('V_%s%d' % (tr[1], tr[2]), zsort(tr[1]))
        if k == 'opq':
            i = s.n.get(tr, 0); s.n[tr] = i + 1
            s.ev.append(('call', 'opaque_%s%d' % (tr[1], tr[2]), ()))
            return z3.Const('O_%s%d_%d' % (tr[1], tr[2], i), zsort(tr[1]))
        n, ts, m = tr[1]
        xs = [s.go(x) for x in tr[2]]
        if m and all(t in ns.SORT for t in ts) and ns.ret(n, list(ts)):
            v, r, u = ns.apply(n, list(ts), xs, s.py)
            if not z3.is_false(r): s.ev.append(('raise', r, ()))
            if not z3.is_false(u): s.undef.append(u)
            return v
        nm = '%s_%s_%s' % (n, '_'.join(ts), m)
        if s.pure and m and n in ns.CMP:
            # comparison methods of other classes are assumed to mirror each other (a < b iff b > a)
            m2 = {'__gt__': '__lt__', '__ge__': '__le__'}.get(n)
            if m2 or (n in ('__eq__', '__ne__') and str((ts[0], xs[0])) > str((ts[1], xs[1]))): xs = xs[::-1]; ts = ts[::-1]; nm = '%s_%s_%s' % (m2 or n, '_'.join(ts), m)
        if not s.pure: s.ev.append(('call', nm, tuple(xs)))
        rt = [k for k in method_keys() if (k[0], k[1], k[4]) == tr[1]][0][2]
        return z3.Function('U_' + nm, *([x.sort() for x in xs] + [zsort(rt)]))(*xs)

def equal(a, b):
    if a.sort() != b.sort(): return z3.BoolVal(False)
    return a == b

def equivalent(ctx, py, orig, new, where='', pure=False):
    """obligations: new computes what orig computes, with the same effects in the same order, and raises exactly when orig does"""
    a, b = Val(py, pure), Val(py, pure)
    va, vb = a.go(orig), b.go(new)
    for u in a.undef: ctx.assume(z3.Not(u))
    ctx.prove(va.sort() == vb.sort(), 'same type', where)
    def live(ev):
        out = []
        for x in ev:
            if x[0] == 'raise':
                if not ctx.possible(x[1]): continue
            out.append(x)
        return out
    if pure:   # evaluation order is immaterial: only whether anything raises
        j = lambda ev: [('raise', z3.simplify(z3.Or([x[1] for x in ev if x[0] == 'raise'])), ())] if any(x[0] == 'raise' for x in ev) else []
        k = lambda ev: sorted([x for x in ev if x[0] != 'raise'], key=lambda x: x[1])
        a.ev = k(a.ev) + j(a.ev); b.ev = k(b.ev) + j(b.ev)
    ea, eb = live(a.ev), live(b.ev)
    same = [x[0] for x in ea] == [x[0] for x in eb] and all(p[0] == 'raise' or p[1] == q[1] for p, q in zip(ea, eb))
    ctx.prove(same, 'same effects in the same order (%s / %s)' % ([x[1] if x[0] == 'call' else 'raise' for x in ea], [x[1] if x[0] == 'call' else 'raise' for x in eb]), where)
    if same:
        for p, q in zip(ea, eb):
            if p[0] == 'raise': ctx.prove(p[1] == q[1], 'raises in the same cases', where)
            else:
                for x, y in zip(p[2], q[2]): ctx.prove(equal(x, y), 'same arguments', where)
    for p in ea:
        if p[0] == 'raise': ctx.assume(z3.Not(p[1]))
    for u in b.undef: ctx.prove(z3.Not(u), 'result defined where the original is', where)
    g = equal(va, vb)
    if z3.is_bv(va) and va.sort() == vb.sort():
        d = z3.simplify(va - vb, som=True)     # polynomial normal form
        if z3.is_bv_value(d): g = z3.BoolVal(d.as_long() == 0)
    ctx.prove(g, 'same value', where)
def show(tr):
    if tr[0] == 'const': return str(tr[2])
    if tr[0] in ('var', 'opq'): return ('%s_%s%d' if tr[0] == 'var' else '%s_%s%d()') % (tr[0], tr[1], tr[2])
    return '%s.%s(%s)' % ('/'.join(tr[1][1]), tr[1][0], ', '.join(show(x) for x in tr[2]))
