"""Specification of the scalar operators (int, float, bool): value, when the operation raises, when its outcome is undefined.
Symbolic form: int = BitVec64, float = Float64, bool = z3 Bool.  The concrete form evaluates the same terms."""
import z3
F64 = z3.Float64(); RNE = z3.RNE(); RTZ = z3.RTZ(); RTN = z3.RTN()
I = z3.BitVecSort(64)
POW = z3.Function('ipow', I, I, I)          # wrapped power, exponent >= 0
FPOW = z3.Function('pow_double', F64, F64, F64)
FIPOW = z3.Function('float_int_pow', F64, I, F64)
FREM = z3.Function('frem_double', F64, F64, F64)
SORT = {'int': I, 'float': F64, 'bool': z3.BoolSort()}
CMP = ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__')
ARITH = ('__add__', '__sub__', '__mul__', '__floordiv__', '__mod__', '__truediv__', '__pow__')
BITS = ('__and__', '__or__', '__xor__')
T, Fa = z3.BoolVal(True), z3.BoolVal(False)
MIN = 1 << 63

def i2f(x): return z3.fpSignedToFP(RNE, x, F64)
def b2i(x): return z3.If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
def b2f(x): return z3.If(x, z3.FPVal(1.0, F64), z3.FPVal(0.0, F64))
FZ = z3.FPVal(0.0, F64)
def is0f(x): return z3.fpEQ(x, FZ)
def sdiv(x, y): return x / y
def trem(x, y): return x - (x / y) * y          # == srem(x, y) for y != 0
def adj(x, y):
    r = trem(x, y); return r, z3.And(r != 0, (r < 0) != (y < 0))
def floordiv(x, y):
    r, a = adj(x, y); return z3.If(a, x / y - 1, x / y)
def floormod(x, y):
    r, a = adj(x, y); return z3.If(a, r + y, r)

def ret(name, ts):
    """result type of a built-in operator, or None if the combination is not one"""
    a = ts[0]
    if len(ts) == 1:
        if name in ('__pos__', '__neg__'): return a if a in ('int', 'float') else None
        if name == '__abs__': return a if a in ('int', 'float') else None
        if name == '__invert__': return a if a in ('int', 'bool') else None
        return {'__int__': 'int', '__float__': 'float', '__bool__': 'bool'}.get(name)
    b = ts[1]
    if a == b == 'bool':
        return 'bool' if name in BITS + CMP else None
    if a == 'int' and b == 'bool': return 'int' if name == '__add__' else None
    if 'bool' in (a, b): return None
    if name in CMP: return 'bool'
    if a == b == 'int':
        if name in ARITH: return 'float' if name == '__truediv__' else 'int'
        return 'int' if name in BITS + ('__lshift__', '__rshift__') else None
    return 'float' if name in ARITH else None

def attrs(name, ts):
    """commutative=1 associative=2 distributive=4 as declared in stdlib/internal/types"""
    if ts == ['int', 'int']: return {'__add__': 3, '__mul__': 7, '__and__': 3, '__or__': 3, '__xor__': 3}.get(name, 0)
    if ts == ['bool', 'bool']: return 3 if name in BITS else 0
    if ts == ['int', 'bool'] and name == '__add__': return 3
    if len(ts) == 2 and name in ('__add__', '__mul__') and 'float' in ts: return 1
    return 0

def apply(name, ts, xs, py):
    """-> (value, raises, undefined); py: Python numerics in force"""
    a = ts[0]; x = xs[0]
    if len(ts) == 1:
        if name == '__pos__': return x, Fa, Fa
        if name == '__neg__': return (-x if a == 'int' else z3.fpNeg(x)), Fa, Fa
        if name == '__abs__': return (z3.If(x < 0, -x, x) if a == 'int' else z3.fpAbs(x)), Fa, Fa
        if name == '__invert__': return (~x if a == 'int' else z3.Not(x)), Fa, Fa
        if name == '__int__':
            if a == 'int': return x, Fa, Fa
            if a == 'bool': return b2i(x), Fa, Fa
            lim = z3.FPVal(9223372036854775808.0, F64)
            ok = z3.And(z3.fpLT(x, lim), z3.fpGEQ(x, z3.fpNeg(lim)))
            return z3.fpToSBV(RTZ, x, I), Fa, z3.Not(ok)
        if name == '__float__': return {'int': i2f, 'bool': b2f, 'float': lambda v: v}[a](x), Fa, Fa
        if name == '__bool__': return {'int': lambda v: v != 0, 'bool': lambda v: v, 'float': lambda v: z3.Not(z3.fpEQ(v, FZ))}[a](x), Fa, Fa
    y = xs[1]; b = ts[1]
    if a == b == 'bool':
        xi, yi = b2i(x), b2i(y)
        return {'__and__': z3.And(x, y), '__or__': z3.Or(x, y), '__xor__': z3.Xor(x, y), '__eq__': x == y, '__ne__': x != y,
                '__lt__': xi < yi, '__le__': xi <= yi, '__gt__': xi > yi, '__ge__': xi >= yi}[name], Fa, Fa
    if a == 'int' and b == 'bool' and name == '__add__': return x + b2i(y), Fa, Fa
    if a == b == 'int':
        if name in CMP: return {'__eq__': x == y, '__ne__': x != y, '__lt__': x < y, '__le__': x <= y, '__gt__': x > y, '__ge__': x >= y}[name], Fa, Fa
        ov = z3.And(x == z3.BitVecVal(MIN, 64), y == -1)
        if name in ('__floordiv__', '__mod__'):
            if py: return (floordiv if name == '__floordiv__' else floormod)(x, y), y == 0, ov
            return (x / y if name == '__floordiv__' else z3.SRem(x, y)), Fa, z3.Or(y == 0, ov)
        if name == '__truediv__': return z3.fpDiv(RNE, i2f(x), i2f(y)), (y == 0 if py else Fa), Fa
        if name == '__pow__': return z3.If(y < 0, z3.BitVecVal(0, 64), POW(x, y)), Fa, Fa
        if name == '__lshift__': return x << y, Fa, z3.Not(z3.ULT(y, 64))
        if name == '__rshift__': return x >> y, Fa, z3.Not(z3.ULT(y, 64))
        return {'__add__': x + y, '__sub__': x - y, '__mul__': x * y, '__and__': x & y, '__or__': x | y, '__xor__': x ^ y}[name], Fa, Fa
    if name == '__pow__' and a == 'float' and b == 'int': return FIPOW(x, y), Fa, Fa
    z0 = y == 0 if b == 'int' else is0f(y)
    if a == 'int': x = i2f(x)
    if b == 'int': y = i2f(y)
    if name in CMP:
        return {'__eq__': z3.fpEQ(x, y), '__ne__': z3.Not(z3.fpEQ(x, y)), '__lt__': z3.fpLT(x, y), '__le__': z3.fpLEQ(x, y),
                '__gt__': z3.fpGT(x, y), '__ge__': z3.fpGEQ(x, y)}[name], Fa, Fa
    if name == '__add__': return z3.fpAdd(RNE, x, y), Fa, Fa
    if name == '__sub__': return z3.fpSub(RNE, x, y), Fa, Fa
    if name == '__mul__': return z3.fpMul(RNE, x, y), Fa, Fa
    if name == '__truediv__': return z3.fpDiv(RNE, x, y), (z0 if py else Fa), Fa
    if name == '__pow__': return FPOW(x, y), Fa, Fa
    if name in ('__floordiv__', '__mod__'):
        if py:
            fd = z3.Function('py_fdiv', F64, F64, F64); fm = z3.Function('py_fmod', F64, F64, F64)
            return (fd if name == '__floordiv__' else fm)(x, y), z0, Fa
        if name == '__mod__': return FREM(x, y), Fa, Fa
        return z3.fpRoundToIntegral(RTN, z3.fpDiv(RNE, x, y)), Fa, Fa
    raise KeyError((name, ts))

# ---- concrete evaluation in plain Python (same specification, used by the finders)
import math, struct
def wrap(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v
class Raises(Exception): pass
class Undefined(Exception): pass
def cfdiv(x, y):
    if y != 0: 
        try: return x / y
        except OverflowError: return math.copysign(math.inf, x) * math.copysign(1, y)
    if x == 0 or x != x: return math.nan
    return math.copysign(math.inf, x) * math.copysign(1.0, y)
def cfpow(x, y):
    import ctypes
    global _libm
    try: _libm
    except NameError:
        _libm = ctypes.CDLL('libm.so.6'); _libm.pow.restype = ctypes.c_double; _libm.pow.argtypes = [ctypes.c_double] * 2
        _libm.fmod.restype = ctypes.c_double; _libm.fmod.argtypes = [ctypes.c_double] * 2
    return _libm.pow(x, y)
def cfmod(x, y): cfpow(1.0, 1.0); return _libm.fmod(x, y)
def capply(name, ts, xs, py):
    a = ts[0]; x = xs[0]
    if len(ts) == 1:
        if name == '__pos__': return x
        if name == '__neg__': return wrap(-x) if a == 'int' else -x
        if name == '__abs__': return wrap(abs(x)) if a == 'int' else abs(x)
        if name == '__invert__': return ~x if a == 'int' else (not x)
        if name == '__int__':
            if a == 'float':
                if x != x or not -2.0**63 <= x < 2.0**63: raise Undefined()
            return int(x)
        if name == '__float__': return float(x)
        if name == '__bool__': return x != 0
    y = xs[1]; b = ts[1]
    if name in CMP: 
        if a != b: x, y = float(x), float(y)
        return {'__eq__': x == y, '__ne__': x != y, '__lt__': x < y, '__le__': x <= y, '__gt__': x > y, '__ge__': x >= y}[name]
    if a == b == 'bool': return {'__and__': x and y, '__or__': x or y, '__xor__': x != y}[name]
    if b == 'bool': return wrap(x + int(y))
    if a == b == 'int':
        if name in ('__floordiv__', '__mod__'):
            if y == 0:
                if py: raise Raises()
                raise Undefined()
            if x == -MIN and y == -1: raise Undefined()
            if py: return x // y if name == '__floordiv__' else x % y
            q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
            return q if name == '__floordiv__' else x - q * y
        if name == '__truediv__':
            if y == 0 and py: raise Raises()
            return cfdiv(float(x), float(y))
        if name == '__pow__': return wrap(pow(x, y, 1 << 64)) if y >= 0 else 0
        if name in ('__lshift__', '__rshift__'):
            if not 0 <= y < 64: raise Undefined()
            return wrap(x << y) if name == '__lshift__' else x >> y
        return wrap({'__add__': lambda: x + y, '__sub__': lambda: x - y, '__mul__': lambda: x * y, '__and__': lambda: x & y, '__or__': lambda: x | y, '__xor__': lambda: x ^ y}[name]())
    if name == '__pow__' and a == 'float' and b == 'int': return cfpow(x, float(y))     # only compared with itself
    x, y = float(x), float(y)
    if name == '__add__': return x + y
    if name == '__sub__': return x - y
    if name == '__mul__': return x * y
    if name == '__truediv__':
        if y == 0 and py: raise Raises()
        return cfdiv(x, y)
    if name == '__pow__': return cfpow(x, y)
    if py:
        if y == 0: raise Raises()
        return x // y if name == '__floordiv__' else x % y
    if name == '__mod__': return cfmod(x, y)
    q = cfdiv(x, y)
    return math.floor(q) * 1.0 if math.isfinite(q) and abs(q) < 2**52 else q
def fbits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def same(t, u, v):
    if t == 'float': return (u != u and v != v) or fbits(u) == fbits(v)
    return u == v
