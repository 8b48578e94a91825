"""Runtime values for the Codon front end: concrete or symbolic, one code path for both."""
import z3, math, struct
from core import PathEnd, Unsupported, PathLimit
I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1

class RT:
    ctx = None            # core.Ctx when symbolic
    mode = 'conc'         # 'conc' | 'math' | 'bv'
    numerics = 'c'
    ovf = True            # prove absence of i64 overflow in math mode
    codecs = {}           # type-variable name -> Codec
    ub = []               # concrete-mode UB events
    steps = 0
    max_steps = 10 ** 9
    world = None

class ConcreteUB(Exception):
    """Concrete execution of the real text hit undefined behaviour (out-of-bounds access, ...)."""

class NonTermination(Exception):
    pass

def tick():
    RT.steps += 1
    if RT.steps > RT.max_steps: raise NonTermination('step budget')

def isz(x): return z3.is_expr(x)

# ------------------------------------------------------------------ booleans
class SBool:
    __slots__ = ('c',)
    def __init__(s, c): s.c = c
    def __bool__(s): return RT.ctx.branch(s.c)
    def __and__(s, o): return mkbool(z3.And(s.c, zb(o)))
    __rand__ = __and__
    def __or__(s, o): return mkbool(z3.Or(s.c, zb(o)))
    __ror__ = __or__
    def __xor__(s, o): return mkbool(z3.Xor(s.c, zb(o)))
    __rxor__ = __xor__
    def __invert__(s): return mkbool(z3.Not(s.c))
    def __eq__(s, o): return mkbool(s.c == zb(o))
    def __ne__(s, o): return mkbool(z3.Xor(s.c, zb(o)))
    def __int__(s): raise Unsupported('int(SBool)')
    def __add__(s, o): return b2int(s) + o
    def __radd__(s, o): return o + b2int(s)
    def __hash__(s): return id(s)
def b2int(b):
    if isinstance(b, bool): return CInt(int(b))
    return CInt(z3.If(b.c, z3.IntVal(1), z3.IntVal(0)) if RT.mode == 'math' else z3.If(b.c, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
def zb(o):
    if isinstance(o, SBool): return o.c
    if isinstance(o, bool): return z3.BoolVal(o)
    if isz(o): return o
    raise Unsupported('bool operand %r' % (o,))
def mkbool(c):
    if isinstance(c, bool): return c
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return SBool(c)

# ------------------------------------------------------------------ 64-bit int
def wrap64(x): return ((x + (1 << 63)) & ((1 << 64) - 1)) - (1 << 63)
def S(x):
    x = z3.simplify(x)
    if z3.is_int_value(x): return x.as_long()
    if z3.is_bv_value(x): return x.as_signed_long()
    return x

def cint(o):
    """-> raw value or None"""
    t = type(o)
    if t is CInt: return o.v
    if t is int: return o
    if t is bool: return int(o)
    if t is SBool: return b2int(o).v
    return None

class CInt:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return 'CInt(%s)' % (s.v,)
    def conc(s): return not isz(s.v)
    def _b(s, o, f, fz, name):
        b = cint(o)
        if b is None:
            return NotImplemented
        a = s.v
        if not isz(a) and not isz(b):
            return CInt(wrap64(f(a, b)))
        if RT.mode == 'math':
            r = fz(a if isz(a) else z3.IntVal(a), b if isz(b) else z3.IntVal(b))
            r = S(r)
            if RT.ovf and isz(r): RT.ctx.prove(z3.And(r >= I64MIN, r <= I64MAX), 'no-overflow:' + name)
            return CInt(r)
        r = fz(a if isz(a) else z3.BitVecVal(a, 64), b if isz(b) else z3.BitVecVal(b, 64))
        return CInt(S(r))
    def __add__(s, o):
        if isinstance(o, CFloat): return tofloat(s) + o
        return s._b(o, lambda a, b: a + b, lambda a, b: a + b, 'add')
    def __radd__(s, o): return s._b(o, lambda a, b: b + a, lambda a, b: b + a, 'add')
    def __sub__(s, o):
        if isinstance(o, CFloat): return tofloat(s) - o
        return s._b(o, lambda a, b: a - b, lambda a, b: a - b, 'sub')
    def __rsub__(s, o): return s._b(o, lambda a, b: b - a, lambda a, b: b - a, 'sub')
    def __mul__(s, o):
        if isinstance(o, CFloat): return tofloat(s) * o
        return s._b(o, lambda a, b: a * b, lambda a, b: a * b, 'mul')
    def __rmul__(s, o): return s._b(o, lambda a, b: b * a, lambda a, b: b * a, 'mul')
    def __neg__(s): return CInt(0) - s
    def __pos__(s): return s
    def __invert__(s):
        if RT.mode == 'bv' and isz(s.v): return CInt(S(~s.v))
        return CInt(-1) - s
    def __abs__(s):
        if not isz(s.v): return CInt(wrap64(abs(s.v)))
        return CInt(S(z3.If(s.v >= 0, s.v, -s.v)))
    def _divmod(s, o, want):
        b = cint(o); a = s.v
        if b is None: return NotImplemented
        if RT.numerics == 'py':
            z = (b == 0) if not isz(b) else RT.ctx.branch(b == 0)
            if z: raise EXC['ZeroDivisionError']()
        if not isz(a) and not isz(b):
            if b == 0: return ub('division by zero')
            if a == I64MIN and b == -1: return ub('signed division overflow')
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            r = a - q * b
            if RT.numerics == 'py' and r and ((b ^ r) < 0): r += b; q -= 1
            return CInt(q if want == 0 else r)
        ctx = RT.ctx
        if RT.mode == 'math':
            A = a if isz(a) else z3.IntVal(a); B = b if isz(b) else z3.IntVal(b)
            if isz(b): ctx.prove(b != 0, 'no-ub:division by zero')
            elif b == 0: return ub('division by zero')
            if isz(b) or b == -1: ctx.prove(z3.Not(z3.And(A == I64MIN, B == -1)), 'no-ub:signed division overflow')
            bpos = (b > 0) if not isz(b) else None
            apos = None
            if not isz(a): apos = a >= 0
            elif ctx._check(A < 0) == z3.unsat: apos = True
            if bpos is None and ctx._check(B < 0) == z3.unsat: bpos = True
            if RT.numerics == 'py' and bpos:
                return CInt(S(A / B if want == 0 else A % B))
            if apos and bpos: q = A / B; r = A % B
            elif bpos:
                q = z3.If(A >= 0, A / B, -((-A) / B)); r = A - q * B
            else:
                aa = z3.If(A >= 0, A, -A); bb = z3.If(B >= 0, B, -B)
                q = z3.If((A >= 0) == (B >= 0), aa / bb, -(aa / bb)); r = A - q * B
            if RT.numerics == 'py':
                adj = z3.And(r != 0, (B < 0) != (r < 0))
                q, r = z3.If(adj, q - 1, q), z3.If(adj, r + B, r)
            return CInt(S(q if want == 0 else r))
        A = a if isz(a) else z3.BitVecVal(a, 64); B = b if isz(b) else z3.BitVecVal(b, 64)
        ctx.prove(B != 0, 'no-ub:division by zero')
        ctx.prove(z3.Not(z3.And(A == I64MIN, B == -1)), 'no-ub:signed division overflow')
        q = A / B; r = z3.SRem(A, B)
        if RT.numerics == 'py':
            adj = z3.And(r != 0, (B ^ r) < 0)
            q, r = z3.If(adj, q - 1, q), z3.If(adj, r + B, r)
        return CInt(S(q if want == 0 else r))
    def __floordiv__(s, o):
        if isinstance(o, CFloat): return tofloat(s) // o
        return s._divmod(o, 0)
    def __mod__(s, o): return s._divmod(o, 1)
    def __rfloordiv__(s, o): return CInt(o) // s
    def __rmod__(s, o): return CInt(o) % s
    def __truediv__(s, o): return tofloat(s) / tofloat(o)
    def __divmod__(s, o): return (s // o, s % o)
    def __lshift__(s, o):
        b = cint(o); a = s.v
        if not isz(b):
            if not 0 <= b < 64: return ub('shift amount')
            if not isz(a): return CInt(wrap64(a << b))
            if RT.mode == 'math': return s * CInt(1 << b)
            return CInt(S(a << b))
        if RT.mode == 'math':
            raise Unsupported('symbolic shift in math mode')
        RT.ctx.prove(z3.ULT(b, 64), 'no-ub:shift amount')
        return CInt(S((a if isz(a) else z3.BitVecVal(a, 64)) << b))
    def __rshift__(s, o):
        b = cint(o); a = s.v
        if not isz(b):
            if not 0 <= b < 64: return ub('shift amount')
            if not isz(a): return CInt(a >> b)
            if RT.mode == 'math': return CInt(S(a / z3.IntVal(1 << b)))
            return CInt(S(a >> b))
        if RT.mode == 'math': raise Unsupported('symbolic shift in math mode')
        RT.ctx.prove(z3.ULT(b, 64), 'no-ub:shift amount')
        return CInt(S((a if isz(a) else z3.BitVecVal(a, 64)) >> b))
    def _bit(s, o, f, fz, name):
        b = cint(o); a = s.v
        if b is None: return NotImplemented
        if not isz(a) and not isz(b): return CInt(f(a, b))
        if RT.mode == 'math':
            if isz(b) and not isz(a): a, b = b, a
            if name == 'and' and not isz(b) and b >= 0 and (b & (b + 1)) == 0: return CInt(S(a % z3.IntVal(b + 1)))
            if name == 'and' and not isz(b) and b < 0 and ((-b) & (-b - 1)) == 0: return CInt(S(a - a % z3.IntVal(-b)))
            if name in ('or', 'xor') and not isz(b) and b == 0: return CInt(a)
            raise Unsupported('bitwise %s in math mode' % name)
        return CInt(S(fz(a if isz(a) else z3.BitVecVal(a, 64), b if isz(b) else z3.BitVecVal(b, 64))))
    def __and__(s, o): return s._bit(o, lambda a, b: a & b, lambda a, b: a & b, 'and')
    def __or__(s, o): return s._bit(o, lambda a, b: a | b, lambda a, b: a | b, 'or')
    def __xor__(s, o): return s._bit(o, lambda a, b: a ^ b, lambda a, b: a ^ b, 'xor')
    __rand__ = __and__; __ror__ = __or__; __rxor__ = __xor__
    def _c(s, o, f):
        b = cint(o)
        if b is None:
            if isinstance(o, CFloat): return NotImplemented
            return NotImplemented
        a = s.v
        if not isz(a) and not isz(b): return f(a, b)
        return mkbool(f(a, b))
    def __lt__(s, o): return s._c(o, lambda a, b: a < b)
    def __le__(s, o): return s._c(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._c(o, lambda a, b: a > b)
    def __ge__(s, o): return s._c(o, lambda a, b: a >= b)
    def __eq__(s, o):
        if o is None: return False
        r = s._c(o, lambda a, b: a == b); return r
    def __ne__(s, o):
        if o is None: return True
        return s._c(o, lambda a, b: a != b)
    def __bool__(s):
        if not isz(s.v): return s.v != 0
        return RT.ctx.branch(s.v != 0)
    def __hash__(s): return s.v if not isz(s.v) else id(s)      # codon: int.__hash__ is identity
    def __index__(s):
        if isz(s.v): raise Unsupported('symbolic index into python sequence')
        return s.v
    def __int__(s): return s
    def __float__(s): return tofloat(s)
    def __pow__(s, o):
        b = cint(o)
        if not isz(s.v) and not isz(b):
            if b < 0: return CInt(0)
            return CInt(wrap64(pow(s.v, b, 1 << 64) if abs(s.v) > 1 else s.v ** (b % 2 if b > 1 and s.v == -1 else min(b, 1) if s.v in (0, 1) and b else b)))
        if not isz(b) and 0 <= b <= 8:
            r = CInt(1)
            for _ in range(b): r = r * s
            return r
        if not isz(s.v) and s.v == 2 and RT.mode == 'bv': return CInt(1) << o
        raise Unsupported('symbolic pow')
    def __getattr__(s, n):
        if n.startswith('__array') or n in ('__fields__', 'ptr', 'arr'): raise AttributeError(n)
        if n in ('real',): return s
        w = RT.world
        if w is not None:
            m = w.int_method(n)
            if m is not None: return lambda *a, **k: m(s, *a, **k)
        raise AttributeError('int has no attribute ' + n)
    # contracts of the extracted @llvm methods (C09 discharges them against the real IR)
    def __ctlz__(s):
        if not isz(s.v): return CInt(64 - (s.v & ((1 << 64) - 1)).bit_length())
        if RT.mode == 'bv':
            from llvc import ctlz
            return CInt(S(ctlz(s.v, 64)))
        raise Unsupported('ctlz in math mode')
    def __cttz__(s):
        if not isz(s.v): return CInt(64 if s.v == 0 else (s.v & -s.v).bit_length() - 1)
        raise Unsupported('cttz symbolic')
    def __ctpop__(s):
        if not isz(s.v): return CInt(bin(s.v & ((1 << 64) - 1)).count('1'))
        raise Unsupported('ctpop symbolic')

def ub(what):
    if RT.mode == 'conc': raise ConcreteUB(what)
    RT.ctx.prove(False, 'no-ub:' + what)
    raise PathEnd(what)

# ------------------------------------------------------------------ floats
class CFloat:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return 'CFloat(%s)' % s.v
    def _b(s, o, f, fz):
        o = tofloat(o)
        if o is None: return NotImplemented
        if not isz(s.v) and not isz(o.v):
            return CFloat(f(s.v, o.v))
        return CFloat(fz(zf(s.v), zf(o.v)))
    def __add__(s, o): return s._b(o, lambda a, b: a + b, lambda a, b: z3.fpAdd(z3.RNE(), a, b))
    def __sub__(s, o): return s._b(o, lambda a, b: a - b, lambda a, b: z3.fpSub(z3.RNE(), a, b))
    def __mul__(s, o): return s._b(o, lambda a, b: a * b, lambda a, b: z3.fpMul(z3.RNE(), a, b))
    def __radd__(s, o): return tofloat(o) + s
    def __rsub__(s, o): return tofloat(o) - s
    def __rmul__(s, o): return tofloat(o) * s
    def __truediv__(s, o): 
        o = tofloat(o)
        if RT.numerics == 'py' and bool(o == CFloat(0.0)): raise EXC['ZeroDivisionError']()
        return s._b(o, fdiv, lambda a, b: z3.fpDiv(z3.RNE(), a, b))
    def __rtruediv__(s, o): return tofloat(o) / s
    def __floordiv__(s, o): return s._b(o, lambda a, b: math.floor(fdiv(a, b)) * 1.0, lambda a, b: z3.fpRoundToIntegral(z3.RTN(), z3.fpDiv(z3.RNE(), a, b)))
    def __mod__(s, o): return s._b(o, lambda a, b: math.fmod(a, b) if b != 0 and not math.isinf(a) else float('nan'), None)
    def __neg__(s): return CFloat(-s.v) if not isz(s.v) else CFloat(z3.fpNeg(s.v))
    def __pos__(s): return s
    def __abs__(s): return CFloat(abs(s.v)) if not isz(s.v) else CFloat(z3.fpAbs(s.v))
    def __pow__(s, o): return s._b(o, fpow, None)
    def _c(s, o, f, fz):
        o = tofloat(o)
        if o is None: return NotImplemented
        if not isz(s.v) and not isz(o.v): return f(s.v, o.v)
        return mkbool(fz(zf(s.v), zf(o.v)))
    def __lt__(s, o): return s._c(o, lambda a, b: a < b, z3.fpLT)
    def __le__(s, o): return s._c(o, lambda a, b: a <= b, z3.fpLEQ)
    def __gt__(s, o): return s._c(o, lambda a, b: a > b, z3.fpGT)
    def __ge__(s, o): return s._c(o, lambda a, b: a >= b, z3.fpGEQ)
    def __eq__(s, o): return False if o is None else s._c(o, lambda a, b: a == b, z3.fpEQ)
    def __ne__(s, o): return True if o is None else s._c(o, lambda a, b: a != b, lambda a, b: z3.Not(z3.fpEQ(a, b)))
    def __bool__(s): return s.v != 0.0 if not isz(s.v) else RT.ctx.branch(z3.Not(z3.fpIsZero(s.v)))
    def __hash__(s): return hash(s.v)
    def __int__(s):
        return toint(s)
    def copysign(s, o): return CFloat(math.copysign(s.v, tofloat(o).v))
    def __floor__(s): return CFloat(float(math.floor(s.v)) if math.isfinite(s.v) else s.v)
    def __ceil__(s): return CFloat(float(math.ceil(s.v)) if math.isfinite(s.v) else s.v)
    def __trunc__(s): return CFloat(float(math.trunc(s.v)) if math.isfinite(s.v) else s.v)
    def __getattr__(s, n):
        m1 = {'sqrt': lambda x: math.sqrt(x) if x >= 0 else float('nan'), 'log': lambda x: math.log(x) if x > 0 else (float('-inf') if x == 0 else float('nan')), 'exp': math.exp, 'sin': math.sin, 'cos': math.cos,
              'log2': math.log2, 'log10': math.log10, 'floor': lambda x: float(math.floor(x)), 'ceil': lambda x: float(math.ceil(x)), 'trunc': lambda x: float(math.trunc(x)), '__log__': lambda x: math.log(x) if x > 0 else (float('-inf') if x == 0 else float('nan'))}
        if n in m1 and not isz(s.v): return lambda: CFloat(m1[n](s.v))
        raise AttributeError('float has no attribute ' + n)
def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a: return float('nan')
        return math.copysign(float('inf'), math.copysign(1, a) * math.copysign(1, b))
    return a / b
def fpow(a, b):
    try: r = math.pow(a, b)
    except OverflowError: r = float('inf')
    except ValueError: r = float('nan')
    return r
def zf(v): return v if isz(v) else z3.FPVal(v, z3.Float64())
def tofloat(o):
    if isinstance(o, CFloat): return o
    if isinstance(o, float): return CFloat(o)
    if isinstance(o, bool): return CFloat(float(o))
    if isinstance(o, CInt):
        if not isz(o.v): return CFloat(float(o.v))
        if RT.mode == 'bv': return CFloat(z3.fpSignedToFP(z3.RNE(), o.v, z3.Float64()))
        raise Unsupported('int->float symbolic')
    if isinstance(o, CIntN):
        if not isz(o.v): return CFloat(float(o.sval()))
        return CFloat((z3.fpSignedToFP if o.signed else z3.fpUnsignedToFP)(z3.RNE(), o.v, z3.Float64()))
    if isinstance(o, int): return CFloat(float(o))
    return None
def toint(o):
    if isinstance(o, CInt): return o
    if isinstance(o, bool): return CInt(int(o))
    if isinstance(o, int): return CInt(o)
    if isinstance(o, SBool): return b2int(o)
    if isinstance(o, CIntN):
        if not isz(o.v):
            x = o.sval(); return CInt(wrap64(x))
        if RT.mode == 'math': raise Unsupported('intN->int in math mode')
        w = o.w
        if w == 64: return CInt(o.v)
        if w > 64: return CInt(S(z3.Extract(63, 0, o.v)))
        return CInt(S((z3.SignExt if o.signed else z3.ZeroExt)(64 - w, o.v)))
    if isinstance(o, CFloat):
        if not isz(o.v):
            if o.v != o.v or math.isinf(o.v) or not (-2.0 ** 63 <= o.v < 2.0 ** 63): return ub('float->int out of range')
            return CInt(int(o.v))
        if RT.mode == 'bv': return CInt(z3.fpToSBV(z3.RTZ(), o.v, z3.BitVecSort(64)))
        raise Unsupported('float->int symbolic')
    if hasattr(o, '__int__'): return o.__int__()
    raise Unsupported('int(%r)' % (o,))

# ------------------------------------------------------------------ fixed width ints
class CIntN:
    """Int[N]/UInt[N]; v: unsigned python int or z3 BV of width w."""
    __slots__ = ('v', 'w', 'signed')
    def __init__(s, v, w, signed): s.v = v & ((1 << w) - 1) if not isz(v) else v; s.w = w; s.signed = signed
    def __repr__(s): return '%s[%d](%s)' % ('Int' if s.signed else 'UInt', s.w, s.v)
    def sval(s):
        if s.signed and s.v >> (s.w - 1) & 1: return s.v - (1 << s.w)
        return s.v
    def n(s, v): return CIntN(S2(v), s.w, s.signed)
    def co(s, o):
        if isinstance(o, CIntN):
            if o.w != s.w:
                return s if False else CIntN(o.v if not isz(o.v) else _resize(o, s.w), s.w, s.signed)
            return o
        if isinstance(o, CInt):
            return CIntN(o.v, s.w, s.signed) if not isz(o.v) else CIntN(_resize(CIntN(o.v, 64, True), s.w), s.w, s.signed)
        if isinstance(o, (int, bool)): return CIntN(int(o), s.w, s.signed)
        if isinstance(o, CByte): return CIntN(o.v if not isz(o.v) else _resize(CIntN(o.v, 8, False), s.w), s.w, s.signed)
        return None
    def _b(s, o, f, fz=None):
        o = s.co(o)
        if o is None: return NotImplemented
        if not isz(s.v) and not isz(o.v): return s.n(f(s.v, o.v))
        return s.n((fz or f)(zbv(s.v, s.w), zbv(o.v, s.w)))
    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __mul__(s, o): return s._b(o, lambda a, b: a * b)
    def __radd__(s, o): return s.co(o) + s
    def __rsub__(s, o): return s.co(o) - s
    def __rmul__(s, o): return s.co(o) * s
    def __and__(s, o): return s._b(o, lambda a, b: a & b)
    def __or__(s, o): return s._b(o, lambda a, b: a | b)
    def __xor__(s, o): return s._b(o, lambda a, b: a ^ b)
    __rand__ = __and__; __ror__ = __or__; __rxor__ = __xor__
    def __lshift__(s, o): 
        o = s.co(o); s.sh(o); return s._b(o, lambda a, b: a << b)
    def sh(s, o):
        if not isz(o.v):
            if o.v >= s.w: return ub('shift amount')
        else: RT.ctx.prove(z3.ULT(o.v, s.w), 'no-ub:shift amount')
    def __rshift__(s, o):
        o = s.co(o); s.sh(o)
        if not isz(s.v) and not isz(o.v): return s.n(s.sval() >> o.v)
        a, b = zbv(s.v, s.w), zbv(o.v, s.w)
        return s.n(a >> b if s.signed else z3.LShR(a, b))
    def __floordiv__(s, o):
        o = s.co(o)
        if not isz(s.v) and not isz(o.v):
            if o.v == 0: return ub('division by zero')
            a, b = s.sval(), o.sval()
            q = abs(a) // abs(b)
            return s.n(-q if (a < 0) != (b < 0) else q)
        a, b = zbv(s.v, s.w), zbv(o.v, s.w)
        RT.ctx.prove(b != 0, 'no-ub:division by zero')
        return s.n(a / b if s.signed else z3.UDiv(a, b))
    def __mod__(s, o):
        o = s.co(o)
        if not isz(s.v) and not isz(o.v):
            if o.v == 0: return ub('division by zero')
            a, b = s.sval(), o.sval()
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            return s.n(a - q * b)
        a, b = zbv(s.v, s.w), zbv(o.v, s.w)
        RT.ctx.prove(b != 0, 'no-ub:division by zero')
        return s.n(z3.SRem(a, b) if s.signed else z3.URem(a, b))
    def __truediv__(s, o): return tofloat(s) / tofloat(o if not isinstance(o, (int, CInt)) else s.co(o))
    def __neg__(s): return s.n(-s.v)
    def __pos__(s): return s
    def __invert__(s): return s.n(~s.v)
    def _c(s, o, f, fu=None):
        if o is None: return False
        o = s.co(o)
        if o is None: return NotImplemented
        if not isz(s.v) and not isz(o.v): return f(s.sval(), o.sval())
        a, b = zbv(s.v, s.w), zbv(o.v, s.w)
        return mkbool(f(a, b) if s.signed or fu is None else fu(a, b))
    def __lt__(s, o): return s._c(o, lambda a, b: a < b, z3.ULT)
    def __le__(s, o): return s._c(o, lambda a, b: a <= b, z3.ULE)
    def __gt__(s, o): return s._c(o, lambda a, b: a > b, z3.UGT)
    def __ge__(s, o): return s._c(o, lambda a, b: a >= b, z3.UGE)
    def __eq__(s, o): return s._c(o, lambda a, b: a == b)
    def __ne__(s, o): return True if o is None else s._c(o, lambda a, b: a != b)
    def __bool__(s): return s.v != 0 if not isz(s.v) else RT.ctx.branch(s.v != 0)
    def __hash__(s): return s.v if not isz(s.v) else id(s)
    def __index__(s):
        if isz(s.v): raise Unsupported('symbolic index')
        return s.sval()
    def __int__(s): return toint(s)
    def __float__(s): return tofloat(s)
    def __getattr__(s, n):
        w = RT.world
        if w is not None and not n.startswith('__array'):
            m = w.intn_method(n, s.signed)
            if m is not None: return lambda *a, **k: m(s, *a, **k)
        raise AttributeError('IntN has no attribute ' + n)
def S2(x):
    if not isz(x): return x
    x = z3.simplify(x)
    if z3.is_bv_value(x): return x.as_long()
    return x
def zbv(v, w): return v if isz(v) else z3.BitVecVal(v, w)
def _resize(o, w):
    if w == o.w: return o.v
    if w < o.w: return S2(z3.Extract(w - 1, 0, o.v))
    return S2((z3.SignExt if o.signed else z3.ZeroExt)(w - o.w, o.v))

class CByte:
    """byte (i8). Comparisons are unsigned, as in types/byte.codon (discharged by C09)."""
    __slots__ = ('v',)
    def __init__(s, v): s.v = v & 255 if not isz(v) else v
    def __repr__(s): return 'byte(%s)' % s.v
    def co(s, o):
        if isinstance(o, CByte): return o.v
        if isinstance(o, CIntN) and o.w == 8: return o.v
        return None
    def _c(s, o, f, fu):
        b = s.co(o)
        if b is None: return NotImplemented
        if not isz(s.v) and not isz(b): return f(s.v, b)
        if z3.is_int(s.v) or (isz(b) and z3.is_int(b)): return mkbool(f(s.v, b))
        return mkbool(fu(zbv(s.v, 8), zbv(b, 8)))
    def __eq__(s, o): return s._c(o, lambda a, b: a == b, lambda a, b: a == b)
    def __ne__(s, o): return s._c(o, lambda a, b: a != b, lambda a, b: a != b)
    def __lt__(s, o): return s._c(o, lambda a, b: a < b, z3.ULT)
    def __le__(s, o): return s._c(o, lambda a, b: a <= b, z3.ULE)
    def __gt__(s, o): return s._c(o, lambda a, b: a > b, z3.UGT)
    def __ge__(s, o): return s._c(o, lambda a, b: a >= b, z3.UGE)
    def __hash__(s): return s.v if not isz(s.v) else id(s)
    def __bool__(s): return s.v != 0 if not isz(s.v) else RT.ctx.branch(s.v != 0)
    def __int__(s):
        if not isz(s.v): return CInt(s.v)
        if z3.is_int(s.v): return CInt(s.v)
        return CInt(S(z3.ZeroExt(56, s.v)))
    def _ar(s, o, f):
        b = s.co(o)
        if b is None: return NotImplemented
        return CByte(S2(f(s.v, b)))
    def __add__(s, o): return s._ar(o, lambda a, b: a + b)
    def __sub__(s, o): return s._ar(o, lambda a, b: a - b)
    def __mul__(s, o): return s._ar(o, lambda a, b: a * b)

class CVal:
    """Element of an abstract type T: an identity tag (term); only keyf/eq/hash given by the harness see inside."""
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
    def __repr__(s): return 'CVal(%s)' % (s.t,)
    def __eq__(s, o): raise Unsupported('== on abstract element')
    def __hash__(s): return id(s)

# ------------------------------------------------------------------ exceptions
class CodonRaise(Exception):
    pass
EXC = {}
for _n, _b in [('Exception', None), ('ValueError', 'Exception'), ('IndexError', 'Exception'), ('KeyError', 'Exception'), ('TypeError', 'Exception'), ('OverflowError', 'Exception'), ('ZeroDivisionError', 'Exception'),
               ('StopIteration', 'Exception'), ('AssertionError', 'Exception'), ('IOError', 'Exception'), ('OSError', 'Exception'), ('NotImplementedError', 'Exception'), ('RuntimeError', 'Exception'), ('AttributeError', 'Exception'), ('LookupError', 'Exception'), ('ArithmeticError', 'Exception'), ('MemoryError', 'Exception'), ('StaticCompileError', 'Exception')]:
    EXC[_n] = type('CE_' + _n, (EXC[_b] if _b else CodonRaise,), {})

# ------------------------------------------------------------------ memory
class Codec:
    def __init__(s, name, sort=None, wrap=None, unwrap=None, size=8, conc=None): s.name = name; s.sort = sort; s.wrap = wrap; s.unwrap = unwrap; s.size = size; s.conc = conc

class _Uninit:
    def __repr__(s): return '<uninit>'
UNINIT = _Uninit()

class CArr:
    """A heap block of `size` elements. Concrete: data list. Symbolic: z3 array term `arr` (Int or BV64 index)."""
    _n = [0]
    def __init__(s, size, data=None, arr=None, codec=None, name='heap', default=UNINIT):
        s.size = size; s.arr = arr; s.codec = codec; s.name = name; s.freed = False
        s.data = data
        s.writes = 0
        s.dead = False
    def chk(s, i, what):
        n = s.size
        if isinstance(n, CInt): n = n.v
        if not isz(i) and not isz(n):
            if not 0 <= i < n:
                if RT.mode == 'conc': raise ConcreteUB('out-of-bounds %s: index %d, size %d of %s' % (what, i, n, s.name))
                RT.ctx.prove(False, 'in-bounds:%s of %s' % (what, s.name)); raise PathEnd()
            return
        RT.ctx.prove(z3.And(i >= 0, i < n), 'in-bounds:%s of %s' % (what, s.name))
    def idx(s, i):
        if s.arr is None: return i
        return i if isz(i) else (z3.IntVal(i) if s.arr.sort().domain() == z3.IntSort() else z3.BitVecVal(i, 64))
    def get(s, i):
        s.chk(i, 'read')
        if s.arr is not None:
            return s.codec.wrap(z3.simplify(z3.Select(s.arr, s.idx(i))))
        if isz(i): raise Unsupported('symbolic index into concrete block')
        v = s.data[i]
        if v is UNINIT:
            raise ConcreteUB('read of uninitialised element %d of %s' % (i, s.name)) if RT.mode == 'conc' else Unsupported('uninit read')
        return v
    def put(s, i, v):
        s.chk(i, 'write')
        s.writes += 1
        if s.arr is not None:
            s.arr = z3.Store(s.arr, s.idx(i), s.codec.unwrap(v)); return
        if isz(i): raise Unsupported('symbolic index into concrete block')
        s.data[i] = v

class CPtr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off=0): s.o = o; s.off = off
    def __repr__(s): return 'CPtr(%s+%s)' % (s.o.name if s.o else None, s.off)
    def _i(s, i):
        i = cint(i)
        if not isz(s.off) and s.off == 0: return i
        return S(s.off + i) if isz(s.off) or isz(i) else s.off + i
    def __getitem__(s, i):
        if s.o is None: return ub('null dereference')
        return s.o.get(s._i(i))
    def __setitem__(s, i, v):
        if s.o is None: return ub('null dereference')
        s.o.put(s._i(i), v)
    def __add__(s, i): return CPtr(s.o, s._i(i))
    def __sub__(s, o):
        if isinstance(o, CPtr):
            if o.o is not s.o: raise Unsupported('pointer difference of different blocks')
            return CInt(S(s.off - o.off) if isz(s.off) or isz(o.off) else s.off - o.off)
        return CPtr(s.o, s._i(CInt(0) - o if isinstance(o, CInt) else -o))
    def __eq__(s, o):
        if o is None: return s.o is None
        if not isinstance(o, CPtr): return NotImplemented
        if s.o is not o.o: return False
        r = s.off == o.off
        return mkbool(r) if isz(r) else r
    def __ne__(s, o):
        r = s == o
        return ~r if isinstance(r, SBool) else not r
    def __bool__(s): return s.o is not None
    def _cmp(s, o, f):
        if s.o is not o.o: raise Unsupported('pointer order across blocks')
        r = f(s.off, o.off); return mkbool(r) if isz(r) else r
    def __lt__(s, o): return s._cmp(o, lambda a, b: a < b)
    def __le__(s, o): return s._cmp(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._cmp(o, lambda a, b: a > b)
    def __ge__(s, o): return s._cmp(o, lambda a, b: a >= b)
    def __hash__(s): return id(s.o)
    def as_byte(s): return s
    def __prefetch_r3__(s): return None
    __prefetch_w3__ = __prefetch_r3__
    def __int__(s): raise Unsupported('int(ptr)')
NULLPTR = None

def new_block(n, codec=None, name='heap', init=UNINIT):
    """allocation: n CInt"""
    v = cint(n)
    if RT.mode == 'conc' or (not isz(v) and codec is None) or codec is None or codec.sort is None:
        if isz(v): raise Unsupported('symbolic allocation of untyped block')
        if v < 0 or v > 10 ** 8: return ub('allocation size %d' % v)
        return CArr(v, data=[init] * v, name=name, codec=codec)
    dom = z3.IntSort() if RT.mode == 'math' else z3.BitVecSort(64)
    RT.ctx.prove(v >= 0 if isz(v) else v >= 0, 'allocation size non-negative')
    a = z3.Const(RT.ctx.fresh_name('mem_' + name), z3.ArraySort(dom, codec.sort))
    return CArr(v, arr=a, codec=codec, name=name)

def memmove(dst, src, n):
    """copy n elements (element-granular), regions may overlap."""
    n = cint(n)
    if not isz(n) and dst.o.arr is None and src.o.arr is None and not isz(src.off) and not isz(dst.off):
        if n < 0: return ub('negative memcpy length')
        if n == 0: return
        src.o.chk(src.off, 'memcpy source'); src.o.chk(src.off + n - 1, 'memcpy source')
        dst.o.chk(dst.off, 'memcpy dest'); dst.o.chk(dst.off + n - 1, 'memcpy dest')
        tmp = src.o.data[src.off:src.off + n]
        dst.o.data[dst.off:dst.off + n] = tmp
        dst.o.writes += 1
        return
    if dst.o.arr is None or src.o.arr is None: raise Unsupported('memmove between concrete and symbolic blocks')
    ctx = RT.ctx
    so, do = src.off, dst.off
    ssz, dsz = cint(src.o.size), cint(dst.o.size)
    ctx.prove(z3.And(n >= 0) if isz(n) else n >= 0, 'memmove length non-negative')
    ctx.prove(z3.Or(n == 0, z3.And(so >= 0, so + n <= ssz)) if any(map(isz, (n, so, ssz))) else (n == 0 or (so >= 0 and so + n <= ssz)), 'in-bounds:memmove source ' + src.o.name)
    ctx.prove(z3.Or(n == 0, z3.And(do >= 0, do + n <= dsz)) if any(map(isz, (n, do, dsz))) else (n == 0 or (do >= 0 and do + n <= dsz)), 'in-bounds:memmove destination ' + dst.o.name)
    old, olds = dst.o.arr, src.o.arr
    k = z3.Int('k!mm') if RT.mode == 'math' else z3.BitVec('k!mm', 64)
    dst.o.arr = z3.Lambda([k], z3.If(z3.And(k >= do, k < do + n), z3.Select(olds, k - do + so), z3.Select(old, k)))
    dst.o.writes += 1
